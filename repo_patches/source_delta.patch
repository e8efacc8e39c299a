From 2fa1a14a806256313cc236dfacb40d9f43ebe3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 001/144] fix: parse parenthesized region expressions ending
 with a coordinate relation

The relation grammar consumed any number of closing parentheses, so that e.g.
'(r.A -v vertices in x > 1) -v r.B' was refused. Require the parentheses of
relations to be balanced.
---
 sfepy/discrete/parse_regions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/parse_regions.py b/sfepy/discrete/parse_regions.py
index 72f2d3f..bdd32f9 100644
--- a/sfepy/discrete/parse_regions.py
+++ b/sfepy/discrete/parse_regions.py
@@ -141,12 +141,10 @@ def create_bnf(stack):
     coor = oneOf('x y z')
     boolop = oneOf('& |')
     relop = oneOf('< > <= >= != ==')
-    bool_term = (ZeroOrMore('(') + (coor | fnumber) + relop + (coor | fnumber)
-                 + ZeroOrMore(')'))
     relation = Forward()
-    relation << (ZeroOrMore('(')
-                 + bool_term + ZeroOrMore(boolop + relation)
-                 + ZeroOrMore(')'))
+    bool_term = (((coor | fnumber) + relop + (coor | fnumber))
+                 | ('(' + relation + ')'))
+    relation << (bool_term + ZeroOrMore(boolop + bool_term))
     relation = Group(relation).setParseAction(join_tokens)
 
     nos = Group(vertices + _of + surface).setParseAction(replace('E_VOS'))
-- 
2.43.0


From 522578691d99b37ec87665593a7a727c34446635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 002/144] fix: identify shared triangular faces of wedges

Triangular faces of wedges are stored as degenerate quadrilaterals that can
repeat different vertices in the two neighbouring cells, so that the shared face
was created twice and reported as a surface facet.
---
 sfepy/discrete/common/extmods/mesh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index a95183b..83ece8a 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -1291,6 +1291,18 @@ inline int32 sort_local_connectivity(MeshConnectivity *loc, uint32 *oris,
   if ((p)[0] > (p)[1]) SwapValues((p)[0], (p)[1], (work));\
 } while (0)
 
+// Degenerate quadrilaterals (triangular faces of wedges) can repeat any of
+// their vertices - make the representation of the sorted vertices unique.
+static inline void uniquify_sorted4(uint32 *p)
+{
+  if (p[0] == p[1]) {
+    p[1] = p[2];
+    p[2] = p[3];
+  } else if (p[1] == p[2]) {
+    p[2] = p[3];
+  }
+}
+
 inline void uint32_sort234_copy(uint32 *out, uint32 *p, uint32 num)
 {
   uint32 ii;
@@ -1308,6 +1320,7 @@ inline void uint32_sort234_copy(uint32 *out, uint32 *p, uint32 num)
     break;
   case 4:
     SORT4(out, work);
+    uniquify_sorted4(out);
     break;
   }
 }
@@ -1325,6 +1338,7 @@ inline int32 uint32_sort4(uint32 *p)
   if (p[2] < p[3]) key += 32;
 
   SORT4(p, work);
+  uniquify_sorted4(p);
 
   return(key);
 }
-- 
2.43.0


From dceb4cee0d0432fdc3739b19a8d003c6b607f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 003/144] fix: do not free released connectivities again

conn_free() left dangling pointers, so that destroying a mesh after
CMesh.free_connectivity() freed the arrays twice and corrupted memory.
---
 sfepy/discrete/common/extmods/mesh.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index 83ece8a..f0389f4 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -265,6 +265,8 @@ int32 conn_free(MeshConnectivity *conn)
 {
    free_mem(conn->indices);
    free_mem(conn->offsets);
+   conn->indices = 0;
+   conn->offsets = 0;
    conn->num = 0;
    conn->n_incident = 0;
 
-- 
2.43.0


From 8087f5d9f534c5e016621aa51d9bfa3d994d1b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 004/144] fix: centroids of triangular faces of wedges

The repeated vertex of the degenerate quadrilateral was counted twice.
---
 sfepy/discrete/common/extmods/mesh.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index f0389f4..ed1ce26 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -889,7 +889,7 @@ int32 mesh_select_complete(Mesh *mesh, Mask *mask, int32 dim,
 int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
 {
   uint32 nc = mesh->geometry->dim;
-  uint32 id;
+  uint32 id, prev, num;
   float64 *ptr = ccoors;
   float64 *coors = mesh->geometry->coors;
   MeshEntityIterator it0[1], it1[1];
@@ -898,13 +898,19 @@ int32 mesh_get_centroids(Mesh *mesh, float64 *ccoors, int32 dim)
     for (id = 0; id < nc; id++) {
       ptr[id] = 0.0;
     }
+    prev = UINT32_None;
+    num = 0;
     for (mei_init_conn(it1, it0->entity, 0); mei_go(it1); mei_next(it1)) {
+      // Skip repeated vertices of degenerate quadrilaterals (wedge faces).
+      if (it1->entity->ii == prev) continue;
+      prev = it1->entity->ii;
+      num++;
       for (id = 0; id < nc; id++) {
         ptr[id] += coors[nc * it1->entity->ii + id];
       }
     }
     for (id = 0; id < nc; id++) {
-      ptr[id] /= (float64) it1->it_end;
+      ptr[id] /= (float64) num;
     }
     ptr += nc;
   }
-- 
2.43.0


From 35aad185a29e8cfda8ba07f9a1e8cc00303801da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 005/144] fix: set shape of connectivity graphs

CMesh.get_conn_as_graph() failed for empty connectivities and returned a wrongly
shaped graph when the last entities had no incident ones.
---
 sfepy/discrete/common/extmods/cmesh.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index ffb937f..d0d1a37 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -485,7 +485,8 @@ cdef class CMesh:
                                np.array(conn.indices, copy=True,
                                         dtype=np.int32),
                                np.array(conn.offsets, copy=True,
-                                        dtype=np.int32)))
+                                        dtype=np.int32)),
+                              shape=(self.num[d1], self.num[d2]))
 
         return graph
 
-- 
2.43.0


From 9a313fdc9288b7c8e02655298405c33e76f0b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 006/144] fix: sort regions defined using vertices_from by
 dependency

The region referenced by the vertices_from option was not considered a
prerequisite, so that the success depended on the order of definitions.
---
 sfepy/discrete/common/region.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index bd8f097..9157423 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -38,6 +38,10 @@ def get_dependency_graph(region_defs):
         if rdef.get('parent', None) is not None:
             graph[name].append(rdef.parent)
 
+        eopts = rdef.get('extra_options', None)
+        if (eopts is not None) and ('vertices_from' in eopts):
+            graph[name].append(eopts['vertices_from'])
+
     return graph, name_to_sort_name
 
 def sort_by_dependency(graph):
-- 
2.43.0


From 6bc784234a53b9678cc8396430d3c90630c9e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 007/144] fix: do not mistake set names for references to
 regions

A set name containing 'r.', e.g. 'inner.top', was taken for a reference to a
region, so that the selector was refused.
---
 sfepy/discrete/common/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index 9157423..739e2df 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -5,7 +5,7 @@ import numpy as nm
 from sfepy.base.base import assert_, Struct
 from sfepy.base.compat import in1d
 
-_depends = re.compile(r'r\.([a-zA-Z_\-0-9.]+)').findall
+_depends = re.compile(r'(?<![a-zA-Z_\-0-9.])r\.([a-zA-Z_\-0-9.]+)').findall
 
 def get_parents(selector):
     """
-- 
2.43.0


From 8ee11e783e1c322ab1b2e5edf4593be60c2aa9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 008/144] fix: refuse unresolvable equation dependencies

resolve() silently omitted the equations whose dependencies could not be resolved
(or listed some repeatedly), so that they were not solved.
---
 sfepy/base/resolve_deps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/base/resolve_deps.py b/sfepy/base/resolve_deps.py
index 4b8030f..c468047 100644
--- a/sfepy/base/resolve_deps.py
+++ b/sfepy/base/resolve_deps.py
@@ -88,4 +88,7 @@ def resolve(deps):
         if len(list(it.chain(*order))) == len(deps):
             break
 
+    else:
+        raise ValueError('cannot resolve dependencies of: %s' % sorted(deps))
+
     return order
-- 
2.43.0


From 26447b78f182c2c765f2fc0549ad3f246720de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 009/144] fix: distinguish coefficients and requirements of the
 same name

The prerequisites of the requirement were used for the coefficient, so that the
coefficient was computed before its own prerequisites.
---
 sfepy/homogenization/engine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index 87ba697..a8d1081 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -13,10 +13,8 @@ def insert_sub_reqs(reqs, levels, req_info):
     all_reqs = []
     for _, req in enumerate(reqs):
         # Coefficients are referenced as 'c.<name>'...
-        areq = req[2:] if req.startswith('c.') else req
-
         try:
-            rargs = req_info[areq]
+            rargs = req_info[req]
         except KeyError:
             raise ValueError('requirement "%s" is not defined!' % req)
 
@@ -146,7 +144,7 @@ class HomogenizationWorker:
     def get_sorted_dependencies(req_info, coef_info, compute_only):
         "Make corrs and coefs list sorted according to the dependencies."
 
-        reqcoef_info = copy(coef_info)
+        reqcoef_info = {'c.' + key: val for key, val in coef_info.items()}
         reqcoef_info.update(req_info)
         compute_names = set(get_default(compute_only, list(coef_info.keys())))
         compute_names = ['c.' + key for key in compute_names]
-- 
2.43.0


From d58cf7d16bd014fdffab14d0fb65cbe9b616e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 010/144] fix: do not step past the final time due to round-off

---
 sfepy/solvers/ts.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 4b1f50a..a886331 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -195,6 +195,12 @@ class VariableTimeStepper(TimeStepper):
             self.times[self.step] = self.time
             self.normalize_time()
 
+    def normalize_time(self):
+        TimeStepper.normalize_time(self)
+        # The time is a sum of time steps, take round-off errors into account.
+        if abs(self.nt - 1.0) < 1e-12:
+            self.nt = 1.0
+
     def advance(self):
         self.step += 1
         self.time += self.dt
-- 
2.43.0


From fdf30854a34eacc1d89277c28e2c54b206bce9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 011/144] fix: restore the number of steps and own times of
 variable time stepper

---
 sfepy/solvers/ts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index a886331..ae619a8 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -160,7 +160,8 @@ class VariableTimeStepper(TimeStepper):
 
         self.step = step
         self.dt = dt
-        self.times = times
+        self.times = list(times)
+        self.n_step = step + 1
 
         self.time = self.times[-1]
         self.normalize_time()
-- 
2.43.0


From 59f0478d97765ccc230794f6198549363be0efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 012/144] fix: do not share times in the state of variable time
 stepper

---
 sfepy/solvers/ts.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index ae619a8..27a0141 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -153,7 +153,8 @@ class VariableTimeStepper(TimeStepper):
         self.set_from_data(ts.t0, ts.t1, ts.dt, ts.n_step0, step=0)
 
     def get_state(self):
-        return {'step' : self.step, 'dt' : self.dt, 'times' : self.times}
+        return {'step' : self.step, 'dt' : self.dt,
+                'times' : list(self.times)}
 
     def set_state(self, step=0, dt=None, times=None, **kwargs):
         assert_(len(times) == (step + 1))
-- 
2.43.0


From 88bfb5bcf2ef482f2e1ef09e4e987cdcd6498061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 013/144] fix: compare time intervals of time steppers

---
 sfepy/solvers/ts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 27a0141..017d94c 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -111,8 +111,8 @@ class TimeStepper(Struct):
     def __eq__(self, other):
 
         if type(other) == type(self):
-            return (abs(self.t0 == other.t0) < 1e-15) and \
-                   (abs(self.t1 == other.t1) < 1e-15) and \
+            return (abs(self.t0 - other.t0) < 1e-15) and \
+                   (abs(self.t1 - other.t1) < 1e-15) and \
                    (self.n_step == other.n_step)
         else:
             raise ValueError
-- 
2.43.0


From 688672895a1e2de6298c704d4fba2a429e9d34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 014/144] fix: do not miss save times due to round-off

---
 sfepy/discrete/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index d80fe11..8c5b309 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -57,7 +57,7 @@ def make_is_save(options):
 
             elif isinstance(self.save_times, nm.ndarray):
                 if (self.ilast < len(self.save_times)
-                    and (ts.time + (1e-14 * ts.dt)
+                    and (ts.time + (1e-8 * ts.dt)
                          >= self.save_times[self.ilast])):
                     self.ilast += 1
                     return True
-- 
2.43.0


From 10c11a4bff9b7f163de7d3e22539a83434945555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 015/144] fix: solve a single time step only once

---
 sfepy/solvers/ts_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..e85c6a2 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -207,6 +207,8 @@ class SimpleTimeSteppingSolver(TimeSteppingSolver):
 
             vec = poststep_fun(ts, vec)
             ts.advance()
+            if ts.step == 0: # A single step only.
+                return vec
 
         else:
             vec = vec0
-- 
2.43.0


From a68cd58964044d024577032fcc8ff52622fcb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 016/144] fix: do not reduce the time step below its limit

---
 sfepy/solvers/ts_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index e85c6a2..986fe3d 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -290,11 +290,12 @@ def adapt_time_step(ts, status, adt, context=None, verbose=False):
         is_break = True
 
     else:
-        adt.red = adt.red * adt.red_factor
-        if adt.red < adt.red_max:
+        red = adt.red * adt.red_factor
+        if red < adt.red_max:
             is_break = True
 
         else:
+            adt.red = red
             ts.set_time_step(adt.dt0 * adt.red, update_time=True)
             output('----- new time step: %e -----' % ts.dt,
                    verbose=verbose)
-- 
2.43.0


From 9e7a4b94596c8a3f2590c53b10d673e5b2271349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 017/144] fix: use the given state in the initial time step
 guess

---
 sfepy/solvers/ts_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
-- 
2.43.0


From 1e507e1a7a8054f6d325e1668d1983c67ccbcd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 018/144] fix: return the final state from elastodynamics
 solvers

---
 sfepy/solvers/ts_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 986fe3d..d113bfc 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -759,7 +759,7 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
 
             vec = vect
 
-        return vec
+        return vect
 
 class VelocityVerletTS(ElastodynamicsBaseTS):
     """
-- 
2.43.0


From 1c15c2b8412a2ffa8e9e1b37f87ae01fe50d3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 019/144] fix: do not repeat a single time step in
 elastodynamics and DG solvers

---
 sfepy/solvers/ts_dg_solvers.py | 2 ++
 sfepy/solvers/ts_solvers.py    | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 855d732..29f5b5d 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -101,6 +101,8 @@ class DGMultiStageTSS(TimeSteppingSolver):
 
             vec = poststep_fun(ts, vec)
             ts.advance()
+            if ts.step == 0: # A single step only.
+                return vec
 
         else:
             vec = vec0
diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index d113bfc..dfd6220 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -711,6 +711,9 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
             nls, vec0, init_fun, prestep_fun, poststep_fun)
 
         ts = self.ts
+        if ts.step == 0: # A single step only.
+            return vec
+
         dt0 = self.tsc.get_initial_dt(ts, vec, unpack=unpack)
         if not isinstance(self.tsc, FixedTSC):
             ts.set_time_step(dt0, update_time=True)
-- 
2.43.0


From b52cf0e19997364d9e69695e7b71a034c974e87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 020/144] fix: continue the time step adaptivity after a
 restart

---
 sfepy/solvers/ts_solvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index dfd6220..58506e9 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -366,6 +366,9 @@ class AdaptiveTimeSteppingSolver(SimpleTimeSteppingSolver):
         """
         Solve a single time step.
         """
+        if ts.dt != self.adt.dt0 * self.adt.red: # After a restart.
+            self.adt.red = ts.dt / self.adt.dt0
+
         while 1:
             vect = nls(vec, status=nls.status)
 
-- 
2.43.0


From a4f34ecce0339fc5e37ac5b47056dba542a23fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 021/144] fix: reset the number of easy steps also by a failure
 at the minimum time step

---
 sfepy/solvers/ts_solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 58506e9..c665aa2 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -290,6 +290,8 @@ def adapt_time_step(ts, status, adt, context=None, verbose=False):
         is_break = True
 
     else:
+        adt.wait = 0
+
         red = adt.red * adt.red_factor
         if red < adt.red_max:
             is_break = True
@@ -299,7 +301,6 @@ def adapt_time_step(ts, status, adt, context=None, verbose=False):
             ts.set_time_step(adt.dt0 * adt.red, update_time=True)
             output('----- new time step: %e -----' % ts.dt,
                    verbose=verbose)
-            adt.wait = 0
 
     return is_break
 
-- 
2.43.0


From 41da45d9751a220c7f69f35b70761a6143623575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 022/144] fix: store time history data of variables as own DOF
 vectors

---
 sfepy/discrete/variables.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index f052efa..275d9c7 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1222,12 +1222,13 @@ class Variable(Struct):
             # Copy the current step data to the history data, shift history,
             # initialize if needed. The current step data are left intact.
             # Note: self.data can point into Variables.vec.
+            # The history data contain only the variable DOFs.
+            data = self.data[0][self.indx].copy()
             for ii in range(1, self.history + 1):
                 if self.data[ii] is None:
-                    self.data[ii] = self.data[ii-1].copy()
+                    self.data[ii] = data.copy()
 
-            for ii in range(self.history, 0, -1):
-                self.data[ii][self.indx] = self.data[ii - 1][self.indx]
+                self.data[ii], data = data, self.data[ii]
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
@@ -1305,10 +1306,14 @@ class Variable(Struct):
             raise ValueError('step %d out of range! ([%d, 0])'
                              % (step, -(len(self.data) - 1)))
 
-        else:
-            self.data[step] = data
+        elif step == 0:
+            self.data[0] = data
             self.indx = indx
 
+        else:
+            # The history data contain only the variable DOFs.
+            self.data[-step] = data[indx].copy()
+
         if not preserve_caches:
             self.invalidate_evaluate_cache(step=step)
 
@@ -1338,16 +1343,14 @@ class Variable(Struct):
         """
         if derivative is None:
             if (self.step == 0) and (step == -1):
-                data = self.data[0]
-
-            else:
-                data = self.data[-step]
+                step = 0
 
+            data = self.data[-step]
             if data is None:
                 raise ValueError('data of variable are not set! (%s, step %d)' \
                                  % (self.name, step))
 
-            return data[self.indx]
+            return data[self.indx] if step == 0 else data
 
         else:
             if self.history is None:
@@ -1515,9 +1518,7 @@ class FieldVariable(Variable):
         # Field nodes values.
         data = self.field.interp_v_vals_to_n_vals(data_vertex)
         data = data.ravel()
-        self.indx = slice(0, len(data))
-
-        self.data[step] = data
+        self.set_data(data, step=step)
 
     def set_from_mesh_vertices(self, data):
         """
@@ -1792,9 +1793,9 @@ class FieldVariable(Variable):
         eq = nm.empty((len(nods) * self.n_components,), dtype=nm.int32)
         for idof in range(self.n_components):
             eq[idof::self.n_components] = self.n_components * nods \
-                                          + idof + self.indx.start
+                                          + idof
 
-        out = self.data[step][eq]
+        out = self(step=step)[eq]
         if reshape:
             out.shape = (len(nods), self.n_components)
 
-- 
2.43.0


From 974d7a1dbca579d8c25584ff4f8370d1f8658a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 023/144] fix: do not use stale data in evaluate caches of
 variables

---
 sfepy/discrete/variables.py | 53 ++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 275d9c7..bbcfe11 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1204,6 +1204,7 @@ class Variable(Struct):
 
         self.data = (self.history + 1) * [None]
         self.step = 0
+        self.clear_evaluate_cache()
 
     def time_update(self, ts, functions):
         """Implemented in subclasses."""
@@ -1216,6 +1217,7 @@ class Variable(Struct):
         """
         if self.history is None: return
 
+        is_first = self.step == 0
         self.step = ts.step + 1
 
         if self.history > 0:
@@ -1232,20 +1234,21 @@ class Variable(Struct):
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
-                steps = sorted(step_cache.keys())
+                if None in step_cache:
+                    # Special caches with possible custom advance()
+                    # function.
+                    for key, val in step_cache[None].items():
+                        if hasattr(val, '__advance__'):
+                            val.__advance__(ts, val)
+
+                steps = sorted(step for step in step_cache.keys()
+                               if step is not None)
                 for step in steps:
-                    if step is None:
-                        # Special caches with possible custom advance()
-                        # function.
-                        for key, val in step_cache[step].items():
-                            if hasattr(val, '__advance__'):
-                                val.__advance__(ts, val)
-
-                    elif -step < self.history:
-                        step_cache[step-1] = step_cache[step]
-
-                if len(steps) and (steps[0] is not None):
-                    step_cache.pop(steps[-1])
+                    cache = step_cache.pop(step)
+                    # The previous step data of the first step are special,
+                    # see __call__().
+                    if (-step < self.history) and not is_first:
+                        step_cache[step-1] = cache
 
     def init_data(self, step=0):
         """
@@ -1665,10 +1668,18 @@ class FieldVariable(Variable):
         This should be done, for example, prior to every nonlinear
         solver iteration.
         """
+        steps = [step]
+        if step < 0:
+            # The time derivatives of the next step.
+            steps.append(step + 1)
+
+        elif self.step == 0:
+            # The previous step data of the first step, see __call__().
+            steps.append(-1)
+
         for step_cache in self.evaluate_cache.values():
-            for key in list(step_cache.keys()):
-                if key == step: # Given time step to clear.
-                    step_cache.pop(key)
+            for key in steps: # Given time steps to clear.
+                step_cache.pop(key, None)
 
     def evaluate(self, mode='val',
                  region=None, integral=None, integration=None,
@@ -1744,12 +1755,15 @@ class FieldVariable(Variable):
 
         geo, _, key = field.get_mapping(region, integral, integration,
                                         return_key=True)
-        key += (time_derivative, trace_region)
+        if time_derivative is not None:
+            dt = get_default(dt, self.dt)
+
+        key += (time_derivative, dt, trace_region)
 
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
 
-        if key in cache:
+        if (key in cache) and (bf is None):
             out = cache[key]
 
         else:
@@ -1764,7 +1778,8 @@ class FieldVariable(Variable):
             else:
                 out = eval_complex(vec, conn, geo, mode, shape, bf)
 
-            cache[key] = out
+            if bf is None:
+                cache[key] = out
 
         return out
 
-- 
2.43.0


From 69be510284d1842a45cf76814f9875fb7732fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 024/144] fix: do not mix data of different quadratures of the
 same order

---
 sfepy/discrete/common/fields.py        |  2 +-
 sfepy/discrete/fem/fields_base.py      | 12 ++++++------
 sfepy/discrete/integrals.py            | 15 +++++++++++++++
 sfepy/postprocess/plot_quadrature.py   |  2 +-
 sfepy/terms/terms.py                   |  4 ++--
 sfepy/terms/terms_contact.py           |  2 +-
 sfepy/terms/terms_hyperelastic_base.py |  2 +-
 7 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/sfepy/discrete/common/fields.py b/sfepy/discrete/common/fields.py
index f5d3262..4b7f0a8 100644
--- a/sfepy/discrete/common/fields.py
+++ b/sfepy/discrete/common/fields.py
@@ -230,7 +230,7 @@ class Field(Struct):
         key : tuple
             The key of the mapping in `mappings` or `mappings0`.
         """
-        key = (region.name, integral.order, integration)
+        key = (region.name, integral.key, integration)
 
         if get_saved:
             out = self.mappings0.get(key, None)
diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..6253139 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -634,7 +634,7 @@ class FEField(Field):
         :func:`FEField.create_bqp()`, usually through
         :func:`FEField.create_mapping()`.
         """
-        qpkey = (integral.order, key)
+        qpkey = (integral.key, key)
 
         if qpkey not in self.qp_coors:
             if key[0] == 'b':
@@ -745,7 +745,7 @@ class FEField(Field):
             ps = self.poly_space
 
         _key = key if not from_geometry else 'g' + key
-        bf_key = (integral.order, _key, derivative)
+        bf_key = (integral.key, _key, derivative)
 
         if bf_key not in self.bf:
             ori = self.ori
@@ -766,7 +766,7 @@ class FEField(Field):
         gel = self.gel
 
         sd = self.extra_data[f'sd_{region_name}']
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(sd.face_type, integral)
 
@@ -783,7 +783,7 @@ class FEField(Field):
         gel = self.gel
         sd_bkey, face_type = f'b{bkey}', f's{bkey}'
 
-        bqpkey = (integral.order, sd_bkey)
+        bqpkey = (integral.key, sd_bkey)
         if bqpkey not in self.qp_coors:
             qp = self.get_qp(face_type, integral)
 
@@ -1314,7 +1314,7 @@ class FEField(Field):
                     fc_map = efc_map[sd.fis[:, 1]] * (-1)
                     for ikey, bkey in enumerate(bkeys):
                         idx = efc_map == bkey
-                        qp0 = self.qp_coors[(integral.order, f'b{bkey}')]
+                        qp0 = self.qp_coors[(integral.key, f'b{bkey}')]
                         nqp0 = qp0.vals.shape[1]
                         qp.vals[idx, :nqp0, :] = qp0.vals[idx]
                         qp.weights[idx, :nqp0] = qp0.weights
@@ -1349,7 +1349,7 @@ class FEField(Field):
                                               fc_bf_map=(fc_map, fcaxes))
                 else:
                     self.create_bqp(region.name, integral)
-                    qp = self.qp_coors[(integral.order, esd.bkey)]
+                    qp = self.qp_coors[(integral.key, esd.bkey)]
 
                     abf = ps.eval_basis(qp.vals[0], transform=transform)
                     bf = abf[..., self.efaces[0]]
diff --git a/sfepy/discrete/integrals.py b/sfepy/discrete/integrals.py
index d2b5ff5..7c83ced 100644
--- a/sfepy/discrete/integrals.py
+++ b/sfepy/discrete/integrals.py
@@ -104,6 +104,21 @@ class Integral(Struct):
         else:
             self.order = int(order)
 
+    @property
+    def key(self):
+        """
+        The key identifying the quadrature.
+        """
+        if self.mode == 'builtin':
+            key = self.order if not self.full_order else (self.order, 'full')
+
+        else:
+            key = repr([nm.asarray(ii).tolist() for ii in
+                        (self.coors, self.weights, self.bounds, self.tp_fix,
+                         self.weight_fix, self.symmetric)])
+
+        return key
+
     def get_qp(self, geometry):
         """
         Get quadrature point coordinates and corresponding weights for given
diff --git a/sfepy/postprocess/plot_quadrature.py b/sfepy/postprocess/plot_quadrature.py
index ba3a5e4..166f9c3 100644
--- a/sfepy/postprocess/plot_quadrature.py
+++ b/sfepy/postprocess/plot_quadrature.py
@@ -44,7 +44,7 @@ def _get_bqp(geometry, order):
     field.create_bqp('Surf', integral)
 
     sd = field.extra_data['sd_Surf']
-    qp = field.qp_coors[(integral.order, sd.bkey)]
+    qp = field.qp_coors[(integral.key, sd.bkey)]
 
     output('geometry:', geometry, 'order:', order, 'num. points:',
            qp.vals.shape[1], 'true_order:',
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index f608130..3eae1d4 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -873,7 +873,7 @@ class Term(Struct):
             arg_types = ats
         args = []
 
-        region_name, iorder = self.region.name, self.integral.order
+        region_name, iorder = self.region.name, self.integral.key
         for at in arg_types:
             ii = ats.index(at)
             arg_name = self.arg_names[ii]
@@ -1070,7 +1070,7 @@ class Term(Struct):
         """
         Return a key identifying uniquely the term quadrature points.
         """
-        return (self.region.name, self.integral.order)
+        return (self.region.name, self.integral.key)
 
     def get_physical_qps(self):
         """
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 56d7256..dd10895 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -28,7 +28,7 @@ class ContactInfo(Struct):
         gname = state.field.gel.name
         ib = 3 if gname == '3_8' else 0
 
-        bqpkey = (integral.order, sd.bkey)
+        bqpkey = (integral.key, sd.bkey)
         state.field.create_bqp(region.name, integral)
         bqp = state.field.qp_coors[bqpkey]
 
diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..0705b98 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -53,7 +53,7 @@ class HyperElasticFamilyData(Struct):
         step_cache = state.evaluate_cache.setdefault(self.cache_name, {})
         cache = step_cache.setdefault(step, {})
 
-        key = (region.name, integral.order, geometry_type)
+        key = (region.name, integral.key, geometry_type)
         data_key = key + (derivative,)
 
         if data_key in cache:
-- 
2.43.0


From 340a40acc38527e2c6ebc52438030e9778f24a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 025/144] fix: evaluate multi-linear terms in the required time
 step

---
 sfepy/terms/terms_mass.py        | 2 +-
 sfepy/terms/terms_multilinear.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/terms_mass.py b/sfepy/terms/terms_mass.py
index 3a73fe3..2b373a6 100644
--- a/sfepy/terms/terms_mass.py
+++ b/sfepy/terms/terms_mass.py
@@ -123,7 +123,7 @@ class MassTerm(ETermBase):
             if diff_var is None:
                 earg = self.einfos[None].eargs[2]
                 step_cache = earg.arg.evaluate_cache.setdefault('dofs', {})
-                cache = step_cache.setdefault(0, {})
+                cache = step_cache.setdefault(self.arg_steps[state.name], {})
                 dofs = earg.get_dofs(cache, step_cache, state.name + '.dofs')
                 dofs = dofs.reshape((sh[0], sh[2])) # Does a copy!
 
diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..32d181d 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -212,12 +212,14 @@ class ExpressionArg(Struct):
     def get_dofs(self, cache, expr_cache, oname):
         if self.kind != 'state': return
 
-        key = (self.name, self.term.region.name,
-               self.term.arg_derivatives[self.name])
+        derivative = self.term.arg_derivatives[self.name]
+        key = (self.name, self.term.region.name, derivative,
+               self.arg.dt if derivative is not None else None)
         dofs = cache.get(key)
         if dofs is None:
             arg = self.arg
-            dofs_vec = self.arg(derivative=key[-1])
+            dofs_vec = self.arg(step=self.term.arg_steps[self.name],
+                                derivative=derivative)
             dofs_vec = dofs_vec.reshape((-1, arg.n_components))
             # # axis 0: cells, axis 1: node, axis 2: component
             # dofs = dofs_vec[conn]
-- 
2.43.0


From b2fb465e399a59ac1822c2854c5e57a20b337919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:02 +0000
Subject: [PATCH 026/144] fix: do not use stale operands in multi-linear terms
 with layouts

---
 sfepy/terms/terms_multilinear.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 32d181d..a616005 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -618,13 +618,12 @@ class ExpressionBuilder(Struct):
                         key = (oname,) + tuple(inew)
 
                     else:
-                        # id is unique only during object lifetime!
                         key = (id(op),) + tuple(inew)
 
-                    new_op = self.cache.get(key)
-                    if new_op is None:
+                    orig_op, new_op = self.cache.get(key, (None, None))
+                    if orig_op is not op:
                         new_op = op.transpose(inew).copy()
-                        self.cache[key] = new_op
+                        self.cache[key] = (op, new_op)
 
                     new_subscripts[ia][io] = new_subs
                     new_operands[ia][io] = new_op
-- 
2.43.0


From 06f38a2b62c88a73423c96b4565e65b85ad4ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 027/144] fix: average quadrature point data of fields on
 subdomains and single cells

The data are given in the cells of the field region, so the cell ids must
not be used to index them.
---
 sfepy/discrete/fem/fields_base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 6253139..16cde53 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1419,11 +1419,10 @@ class FEField(Field):
 
         rg = self.get_mapping(self.region, integral, region.kind)[0]
 
-        area = nm.squeeze(rg.volume)
-        iels = self.region.get_cells()
+        area = rg.volume.ravel()
 
         data_e = nm.zeros((area.shape[0], 1, nc, 1), dtype=nm.float64)
-        rg.integrate(data_e, data_qp[iels])
+        rg.integrate(data_e, data_qp)
 
         ir = nm.arange(nc, dtype=nm.int32)
 
@@ -1437,7 +1436,7 @@ class FEField(Field):
         for ii, cc in enumerate(conn):
             # Assumes unique nodes in cc!
             ind2, ind1 = nm.meshgrid(ir, cc)
-            data_vertex[ind1, ind2] += data_e[iels[ii], 0, :, 0]
+            data_vertex[ind1, ind2] += data_e[ii, 0, :, 0]
             nod_vol[cc] += area[ii]
 
         data_vertex /= nod_vol[:, nm.newaxis]
-- 
2.43.0


From ab25af53e32025d873def9b3decbcaea5a6b91bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 028/144] fix: update DOF connectivities of several changed
 regions

---
 sfepy/discrete/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index bbcfe11..b03b971 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -50,7 +50,7 @@ def create_adof_conns(conn_info, var_indx=None, active_only=True,
          recompute = lambda info: info.region.name == regions_changed
     else:
          regions_changed = set(regions_changed)
-         recompute = lambda info: info.region in regions_changed
+         recompute = lambda info: info.region.name in regions_changed
 
     def _create(var, econn):
         offset = var_indx.get(var.name, slice(0, 0)).start
@@ -534,7 +534,7 @@ class Variables(Container):
         self.adof_conns.update(adof_conns)
 
         for var in self:
-            var.set_default('adof_connfs', {})
+            var.set_default('adof_conns', {})
 
         self._set_var_adof_conns(self.adof_conns)
 
-- 
2.43.0


From 3e5a15509edea06c04b1144d1050edca58d6a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 029/144] fix: do not lose periodic conditions of DOFs added to
 a chain

A DOF matched with an already assigned DOF was not marked as assigned, so a
subsequent periodic condition using it broke the chain.
---
 sfepy/discrete/common/dof_info.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 10e3b4f..c3a9094 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -480,6 +480,12 @@ class EquationMap(Struct):
                     master_slave[meq[ii]] = seq[ii] + 1
                     master_slave[seq[ii]] = - meq[ii] - 1
 
+                    # Mark also the DOFs present only in chains as assigned.
+                    im = msa[master_slave[meq[msa]] == 0]
+                    master_slave[meq[im]] = seq[im] + 1
+                    iss = msa[master_slave[seq[msa]] == 0]
+                    master_slave[seq[iss]] = - meq[iss] - 1
+
                 else:
                     master_slave[meq] = seq + 1
                     master_slave[seq] = - meq - 1
-- 
2.43.0


From 80b44b8f4208831d2a992c13d0f50d41da5ddc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:20 +0000
Subject: [PATCH 030/144] fix: propagate EBCs of a master DOF to all masters of
 its EPBC slave

In chains of periodic conditions several master DOFs share one slave. A value
prescribed in one of the masters was propagated to the slave only, leaving the
other masters without equation and without a prescribed value.
---
 sfepy/discrete/common/dof_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index c3a9094..a98c873 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -500,11 +500,12 @@ class EquationMap(Struct):
         mask = eq_ebc[self.master] > 0
         im0 = self.master[mask]
         im1 = self.slave[mask]
+        val_ebc[im1] = val_ebc[im0]
+        eq_ebc[im1] = eq_ebc[im0]
+        # Several masters can have the same slave.
         mask = eq_ebc[self.slave] > 0
         is0 = self.slave[mask]
         is1 = self.master[mask]
-        val_ebc[im1] = val_ebc[im0]
-        eq_ebc[im1] = eq_ebc[im0]
         val_ebc[is1] = val_ebc[is0]
         eq_ebc[is1] = eq_ebc[is0]
 
-- 
2.43.0


From 48fd864cc9fdade08d99723b1da8314bb45a2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 031/144] fix: evaluate real terms with complex multipliers

The in-place multiplication of a real array by a complex prefactor failed.
---
 sfepy/terms/terms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index 3eae1d4..c96d2cb 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -1484,7 +1484,11 @@ class Term(Struct):
                 else:
                     raise ValueError('unsupported term dtype! (%s)' % dtype)
 
-            val *= self.sign
+            if isinstance(self.sign, complex):
+                val = val * self.sign # Can change dtype.
+
+            else:
+                val *= self.sign
             out = (val,)
 
         elif mode == 'weak':
-- 
2.43.0


From e48dea4a1706851616e12b1ea86e2e744bfc27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 032/144] fix: do not modify Terms operand when adding a Term

A shallow copy shares the list of terms, so that t12 + t3 appended t3 to t12
as well.
---
 sfepy/terms/terms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index c96d2cb..a1a898e 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -249,8 +249,7 @@ class Terms(Container):
 
     def __add__(self, other):
         if isinstance(other, Term):
-            out = self.copy()
-            out.append(other)
+            out = Terms(self._objs + [other])
 
         elif isinstance(other, Terms):
             out = Terms(self._objs + other._objs)
-- 
2.43.0


From 058ff4742ab3d0224c2286ec8fe345ddb6472569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 033/144] fix: refuse a variable with different history or
 traces in a single term

The time step, derivative and trace are stored per variable name, so the last
argument overrode the previous ones silently, for example, both arguments of
dw_dot(u, u[-1]) were evaluated as u[-1].
---
 sfepy/terms/terms.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index a1a898e..633110f 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -503,6 +503,15 @@ class Term(Struct):
             if match:
                 name = (match.group(1), match.group(2))
 
+            elif name in self.arg_names:
+                # The settings below are common to all uses of a variable.
+                old = (self.arg_steps[name], self.arg_derivatives[name],
+                       self.arg_traces[name], self.arg_trace_regions[name])
+                if (step, derivative, trace, trace_region) != old:
+                    raise ValueError(f'argument {name} of term {self.name} is'
+                                     ' used with different time steps,'
+                                     ' derivatives or traces!')
+
             self.arg_names.append(name)
             self.arg_steps[name] = step
             self.arg_derivatives[name] = derivative
-- 
2.43.0


From 46349b66d335e551685a747aac13fa414885b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 034/144] fix: do not multiply cached variable values by
 material in ev_integrate

The in-place multiplication modified the array in the evaluate cache of the
variable, so that all later evaluations returned wrong values.
---
 sfepy/terms/terms_basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index f4c7f0b..cb295ea 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -85,7 +85,7 @@ class IntegrateTerm(Term):
 
         val_qp = self.get(parameter, 'val')
         if material is not None:
-            val_qp *= material
+            val_qp = val_qp * material
 
         fmode = {'eval' : 0, 'el_avg' : 1, 'qp' : 2}.get(mode, 1)
         if term_mode == 'flux':
-- 
2.43.0


From 260020e2fd6eac13fe262bd7099d442612a1e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 035/144] fix: keep imaginary part of numpy scalars in
 as_float_or_complex()

float() discards the imaginary part of numpy complex scalars, so that a term
multiplied by such a number was multiplied by its real part only.
---
 sfepy/base/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/base/base.py b/sfepy/base/base.py
index a761db6..5ac6d21 100644
--- a/sfepy/base/base.py
+++ b/sfepy/base/base.py
@@ -1468,6 +1468,9 @@ def as_float_or_complex(val):
     """
     success = False
     try:
+        if isinstance(val, nm.complexfloating):
+            raise TypeError('float() would discard the imaginary part')
+
         out = float(val)
     except:
         pass
-- 
2.43.0


From 72175f3d8460e8a2321242a73191680a0439a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 036/144] fix: refuse terms with superfluous arguments

Additional arguments were silently ignored.
---
 sfepy/terms/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index 633110f..c646d35 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -640,6 +640,10 @@ class Term(Struct):
                 raise ValueError('cannot match variables! (%s)'
                                  % self.arg_names)
 
+        if len(self.args) != len(arg_types):
+            raise ValueError('wrong number of arguments! (%s, expected: %s)'
+                             % (self.arg_names, arg_types))
+
         # Set actual argument types.
         self.ats = list(arg_types)
 
-- 
2.43.0


From 41256cd8072855bbc75d9adb3328fc3dc69c3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 037/144] fix: use the data key in Material.get_data() called
 with a dict of names

---
 sfepy/discrete/materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/materials.py b/sfepy/discrete/materials.py
index 563c221..a6e40ed 100644
--- a/sfepy/discrete/materials.py
+++ b/sfepy/discrete/materials.py
@@ -390,8 +390,8 @@ class Material(Struct):
             return self._get_data(key, name)
         else:
             out = Struct()
-            for key, item in name.items():
-                setattr(out, key, self._get_data(key, item))
+            for attr, item in name.items():
+                setattr(out, attr, self._get_data(key, item))
             return out
 
     def _get_data(self, key, name):
-- 
2.43.0


From 27d3d5ee990812a6912314c7c9647e2266cc872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 038/144] fix: do not treat material with new function as
 constant

---
 sfepy/discrete/materials.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/materials.py b/sfepy/discrete/materials.py
index a6e40ed..bb82338 100644
--- a/sfepy/discrete/materials.py
+++ b/sfepy/discrete/materials.py
@@ -365,6 +365,8 @@ class Material(Struct):
 
     def set_function(self, function):
         self.function = function
+        self.is_constant = isinstance(function, (ConstantFunction,
+                                                 ConstantFunctionByRegion))
         self.reset()
 
     def reset(self):
-- 
2.43.0


From a453d16b100df51b1642c0e43f64b38230f8afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 039/144] fix: consider values of all regions for material
 parameter data type

---
 sfepy/discrete/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/functions.py b/sfepy/discrete/functions.py
index 2f1e486..f8e790e 100644
--- a/sfepy/discrete/functions.py
+++ b/sfepy/discrete/functions.py
@@ -156,7 +156,9 @@ class ConstantFunctionByRegion(Function):
                     if '.' in key: continue
                     rval = nm.array(val[list(val.keys())[0]], ndmin=3)
                     s0 = rval.shape[1:]
-                    dtype = nm.float64 if nm.isrealobj(rval) else nm.complex128
+                    isreal = all(nm.isrealobj(nm.asarray(ii))
+                                 for ii in val.values())
+                    dtype = nm.float64 if isreal else nm.complex128
                     matdata = nm.zeros(qps.shape[:2] + s0, dtype=dtype)
 
                     for rkey, rval in val.items():
-- 
2.43.0


From 7f6a17c56087fe92924e5716a8076d148347d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:01 +0000
Subject: [PATCH 040/144] fix: do not mark material data as evaluated before
 evaluation succeeds

---
 sfepy/discrete/materials.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sfepy/discrete/materials.py b/sfepy/discrete/materials.py
index bb82338..216e446 100644
--- a/sfepy/discrete/materials.py
+++ b/sfepy/discrete/materials.py
@@ -189,8 +189,6 @@ class Material(Struct):
                 key = term.get_qp_key()
                 if only_new and (key in self.datas): continue
 
-                self.datas.setdefault(key, {})
-
                 yield key, term
 
     def set_data(self, key, qps, data):
@@ -241,8 +239,6 @@ class Material(Struct):
         problem : Problem, optional
             The problem definition for which the update occurs.
         """
-        self.datas.setdefault(key, {})
-
         qps = term.get_physical_qps()
         coors = qps.values
         data = self.function(ts, coors, mode='qp',
-- 
2.43.0


From ac5a78b7621a6796053493f75577dae80f07f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 041/144] fix: assemble matrix with variable that has all DOFs
 fixed

---
 sfepy/terms/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index c646d35..da3aaea 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -1680,7 +1680,8 @@ class Term(Struct):
                         aux = vvar._variables.adi.indx[vvar.get_primary_name()]
                         irs = slice(aux.start, aux.stop + 1)
 
-                    max_in_rows[vvar.name] = nm.diff(asm_obj.indptr[irs]).max()
+                    max_in_rows[vvar.name] = (nm.diff(asm_obj.indptr[irs])
+                                                .max(initial=0))
 
                 max_in_row = max_in_rows[vvar.name]
 
-- 
2.43.0


From 2bcec9d26ede3dcf094e70b67bae1f1827dd19d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 042/144] fix: save restart also in steps without complete
 history

---
 sfepy/discrete/problem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 8c5b309..2593870 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2114,6 +2114,8 @@ class Problem(Struct):
             fd.create_array(vgroup, 'history_length', history_length,
                             'history length')
             for ii in range(history_length):
+                if var.data[ii] is None: continue # Not available yet.
+
                 data = var(step=-ii)
                 fd.create_array(vgroup, 'data_%d' % ii, data, 'data')
 
-- 
2.43.0


From 3ab2122219f446e8ce4a475a11ebbadf163604f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 043/144] fix: restore history and step of variables from
 restart file

---
 sfepy/discrete/problem.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 2593870..02d201f 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -2176,19 +2176,27 @@ class Problem(Struct):
             ts.set_state(**ts_state)
 
             vec = variables.create_vec()
+            for var in variables.iter_state():
+                vgroup = fd.root._f_get_child(var.name)
+                data = vgroup._f_get_child('data_0').read()
+                variables.set_vec_part(vec, var.name, data)
+
+            variables.init_state(vec=vec) # Clears history.
+
             for var in variables.iter_state():
                 vgroup = fd.root._f_get_child(var.name)
 
                 history_length = vgroup.history_length.read()
-                for ii in range(0, history_length):
+                for ii in range(1, history_length):
+                    if ('data_%d' % ii) not in vgroup: continue
+
                     data = vgroup._f_get_child('data_%d' % ii).read()
                     var.locked = False
                     var.set_data(data, step=-ii)
                     var.locked = True
-                    if ii == 0:
-                        variables.set_vec_part(vec, var.name, data)
 
-            variables.init_state(vec=vec)
+                if var.history is not None:
+                    var.step = ts.step
 
             if '/r_vec' in fd:
                 r_vec = fd.root.r_vec.read()
-- 
2.43.0


From bc2b5c8749abfa9cc189a095810492c81437516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 044/144] fix: start repeated Problem.solve() from initial time

---
 sfepy/discrete/problem.py   | 1 +
 sfepy/solvers/ts_solvers.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 02d201f..9c2b821 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1542,6 +1542,7 @@ class Problem(Struct):
             else:
                 variables = self.get_initial_state()
 
+            tss.ts.set_step(0) # Allow repeated calls.
             self.time_update(tss.ts)
 
             variables.apply_ebc(force_values=force_values)
diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c665aa2..57df4a0 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -363,6 +363,13 @@ class AdaptiveTimeSteppingSolver(SimpleTimeSteppingSolver):
         if self.adapt_time_step is None:
             self.adapt_time_step = adapt_time_step
 
+    def solve_step0(self, nls, vec0):
+        # Allow repeated calls.
+        self.adt.red, self.adt.wait = 1.0, 0
+        self.ts.set_time_step(self.adt.dt0)
+
+        return SimpleTimeSteppingSolver.solve_step0(self, nls, vec0)
+
     def solve_step(self, ts, nls, vec, prestep_fun):
         """
         Solve a single time step.
-- 
2.43.0


From 044fff4b9c2358b2a54f752ff750478d77543217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 045/144] fix: do not serve past save times again after restart

---
 sfepy/discrete/problem.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 9c2b821..03aebd0 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -51,6 +51,12 @@ def make_is_save(options):
                     self.save_times = nm.linspace(ts.t0, ts.t1,
                                                   self.save_times0)
 
+        def skip(self, ts):
+            # Skip the save times served before and in the current time step.
+            if isinstance(self.save_times, nm.ndarray):
+                for time in ts.times[:ts.step + 1]:
+                    self(Struct(time=time, dt=ts.dt))
+
         def __call__(self, ts):
             if isinstance(self.save_times, str) and self.save_times == 'all':
                 return True
@@ -1346,6 +1352,7 @@ class Problem(Struct):
             restart_filename = self.conf.options.get('load_restart', None)
             if restart_filename is not None:
                 variables = self.load_restart(restart_filename, ts=ts)
+                is_save.skip(ts)
                 self.advance(ts)
                 ts.advance()
                 vec0 = variables.get_state(self.active_only)
-- 
2.43.0


From 29c02577bfd9cdf486c57874f978c86b90a26928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 046/144] fix: keep history when restarting from the last time
 step

---
 sfepy/discrete/problem.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 03aebd0..4fe1da4 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1353,8 +1353,13 @@ class Problem(Struct):
             if restart_filename is not None:
                 variables = self.load_restart(restart_filename, ts=ts)
                 is_save.skip(ts)
-                self.advance(ts)
-                ts.advance()
+                if ts.nt < 1.0:
+                    self.advance(ts)
+                    ts.advance()
+
+                elif ts.step > 0: # Repeat the last step.
+                    ts.dt = ts.times[ts.step] - ts.times[ts.step - 1]
+
                 vec0 = variables.get_state(self.active_only)
 
             return vec0
-- 
2.43.0


From 44578eaa96f05d6c851590f6fbb822de79b0de39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 047/144] fix: do not share initial vector with variables after
 restart

The vector is the initial guess of the repeated solutions of a time step in
adaptive time stepping, it must not be modified by a rejected solution.
---
 sfepy/discrete/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 4fe1da4..16f2057 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -1360,7 +1360,7 @@ class Problem(Struct):
                 elif ts.step > 0: # Repeat the last step.
                     ts.dt = ts.times[ts.step] - ts.times[ts.step - 1]
 
-                vec0 = variables.get_state(self.active_only)
+                vec0 = variables.get_state(self.active_only).copy()
 
             return vec0
 
-- 
2.43.0


From ddbb5d173ded079bdd378e144d80d4959cf92788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 048/144] fix: close HDF5 results file and drop incomplete step
 when write fails

The file was left open in the write mode, so the completed steps could not be
read, and the incomplete step could not be written again.
---
 sfepy/discrete/fem/meshio.py | 133 ++++++++++++++++++-----------------
 1 file changed, 68 insertions(+), 65 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 1a48e58..bc083f3 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1133,71 +1133,74 @@ class HDF5MeshIO(MeshIO):
                 step, time, nt = ts.step, ts.time, ts.nt
 
             # Existing file.
-            fd = pt.open_file(filename, mode="r+")
-
-            step_group_name = 'step%d' % step
-            if step_group_name in fd.root:
-                raise ValueError('step %d is already saved in "%s" file!'
-                                 ' Possible help: remove the old file or'
-                                 ' start saving from the initial time.'
-                                 % (step, filename))
-            step_group = fd.create_group('/', step_group_name, 'time step data')
-
-            ts_group = fd.create_group(step_group, 'ts', 'time stepper')
-            fd.create_array(ts_group, 'step', step, 'step')
-            fd.create_array(ts_group, 't', time, 'time')
-            fd.create_array(ts_group, 'nt', nt, 'normalized time')
-
-            name_dict = {}
-            for key, val in out.items():
-                if xdmf and mesh.coors.shape[1] == 2:
-                    data = expand_data_3d(val.data)
-                else:
-                    data = val.data
-
-                group_name = '__' + key.translate(self._tr)
-                data_group = fd.create_group(step_group, group_name,
-                                             '%s data' % key)
-                fd.create_array(data_group, 'dname', enc(key), 'data name')
-                fd.create_array(data_group, 'mode', enc(val.mode), 'mode')
-                name = val.get('name', 'output_data')
-                fd.create_array(data_group, 'name', enc(name), 'object name')
-                if val.mode == 'custom':
-                    write_to_hdf5(fd, data_group, 'data', data,
-                                  cache=cache,
-                                  unpack_markers=getattr(val, 'unpack_markers',
-                                                         False))
-                    continue
-
-                shape = val.get('shape', data.shape)
-                dofs = val.get('dofs', None)
-                if dofs is None:
-                    dofs = [''] * nm.squeeze(shape)[-1]
-                var_name = val.get('var_name', '')
-
-                fd.create_array(data_group, 'data', data, 'data')
-                fd.create_array(data_group, 'dofs', [enc(ic) for ic in dofs],
-                                'dofs')
-                fd.create_array(data_group, 'shape', shape, 'shape')
-                fd.create_array(data_group, 'var_name',
-                                enc(var_name), 'object parent name')
-                if val.mode == 'full':
-                    fd.create_array(data_group, 'field_name',
-                                    enc(val.field_name), 'field name')
-
-                reg_name = val.get('region_name', '')
-                fd.create_array(data_group, 'region_name',
-                                enc(reg_name), 'region name')
-
-                name_dict[key] = group_name
-
-            step_group._v_attrs.name_dict = name_dict
-            fd.root.last_step[0] = step
-
-            fd.remove_node(fd.root.tstat.finished)
-            fd.create_array(fd.root.tstat, 'finished', enc(asctime()),
-                            'file closing time')
-            fd.close()
+            with pt.open_file(filename, mode="r+") as fd:
+                step_group_name = 'step%d' % step
+                if step_group_name in fd.root:
+                    raise ValueError('step %d is already saved in "%s" file!'
+                                     ' Possible help: remove the old file or'
+                                     ' start saving from the initial time.'
+                                     % (step, filename))
+                step_group = fd.create_group('/', step_group_name, 'time step data')
+                try:
+                    ts_group = fd.create_group(step_group, 'ts', 'time stepper')
+                    fd.create_array(ts_group, 'step', step, 'step')
+                    fd.create_array(ts_group, 't', time, 'time')
+                    fd.create_array(ts_group, 'nt', nt, 'normalized time')
+
+                    name_dict = {}
+                    for key, val in out.items():
+                        if xdmf and mesh.coors.shape[1] == 2:
+                            data = expand_data_3d(val.data)
+                        else:
+                            data = val.data
+
+                        group_name = '__' + key.translate(self._tr)
+                        data_group = fd.create_group(step_group, group_name,
+                                                     '%s data' % key)
+                        fd.create_array(data_group, 'dname', enc(key), 'data name')
+                        fd.create_array(data_group, 'mode', enc(val.mode), 'mode')
+                        name = val.get('name', 'output_data')
+                        fd.create_array(data_group, 'name', enc(name), 'object name')
+                        if val.mode == 'custom':
+                            write_to_hdf5(fd, data_group, 'data', data,
+                                          cache=cache,
+                                          unpack_markers=getattr(val, 'unpack_markers',
+                                                                 False))
+                            continue
+
+                        shape = val.get('shape', data.shape)
+                        dofs = val.get('dofs', None)
+                        if dofs is None:
+                            dofs = [''] * nm.squeeze(shape)[-1]
+                        var_name = val.get('var_name', '')
+
+                        fd.create_array(data_group, 'data', data, 'data')
+                        fd.create_array(data_group, 'dofs', [enc(ic) for ic in dofs],
+                                        'dofs')
+                        fd.create_array(data_group, 'shape', shape, 'shape')
+                        fd.create_array(data_group, 'var_name',
+                                        enc(var_name), 'object parent name')
+                        if val.mode == 'full':
+                            fd.create_array(data_group, 'field_name',
+                                            enc(val.field_name), 'field name')
+
+                        reg_name = val.get('region_name', '')
+                        fd.create_array(data_group, 'region_name',
+                                        enc(reg_name), 'region name')
+
+                        name_dict[key] = group_name
+
+                    step_group._v_attrs.name_dict = name_dict
+                    fd.root.last_step[0] = step
+
+                    fd.remove_node(fd.root.tstat.finished)
+                    fd.create_array(fd.root.tstat, 'finished', enc(asctime()),
+                                    'file closing time')
+
+                except:
+                    # Do not leave an incomplete step in the file.
+                    fd.remove_node(step_group, recursive=True)
+                    raise
 
         if xdmf:
             self.write_xdmf_file(filename, **kwargs)
-- 
2.43.0


From 7440f50c0bea925ddfaafaa28ad38121b4aba932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 049/144] fix: write HDF5 results with names differing in
 special characters only

---
 sfepy/discrete/fem/meshio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index bc083f3..51821f2 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1155,6 +1155,10 @@ class HDF5MeshIO(MeshIO):
                             data = val.data
 
                         group_name = '__' + key.translate(self._tr)
+                        if group_name[2:] != key:
+                            # Distinguish names with the same translation.
+                            group_name += '__' + key.encode('utf-8').hex()
+
                         data_group = fd.create_group(step_group, group_name,
                                                      '%s data' % key)
                         fd.create_array(data_group, 'dname', enc(key), 'data name')
-- 
2.43.0


From 2d5a132c4a4d5e9df1a2aa79aff7beb7f0d71f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 050/144] fix: do not modify extracted histories when averaging
 in cells

---
 sfepy/postprocess/time_history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 26ac181..5d6acb8 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -203,8 +203,8 @@ def average_vertex_var_in_cells(ths_in):
                     if aux[ir] is None:
                         aux[ir] = ndata
                     else:
-                        aux[ir] += ndata
-                aux[ir] /= float(len(data))
+                        aux[ir] = aux[ir] + ndata
+                aux[ir] = aux[ir] / float(len(data))
             else:
                 aux[ir] = data
         ths[var] = aux
-- 
2.43.0


From a1ab543648a3db87bb9383576b54c6fc7f276461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 051/144] fix: dump given steps of results file without all
 steps

The times of all the saved steps are not indexed by the step numbers.
---
 sfepy/postprocess/time_history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 5d6acb8..6f78516 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -66,7 +66,7 @@ def dump_to_vtk(filename, output_filename_trunk=None, step0=0, steps=None,
                         for ii in range(ii0, len(times)))
 
         else:
-            iterator = [(step, ts.times[step]) for step in steps]
+            iterator = [(step, None) for step in steps]
 
         max_step = all_steps.max()
         for step, time in iterator:
-- 
2.43.0


From 08fba361c254a714a529894fc2a1279f0f16c51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 052/144] fix: extract time history of nodal variables in
 elements

---
 sfepy/postprocess/time_history.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfepy/postprocess/time_history.py b/sfepy/postprocess/time_history.py
index 6f78516..d73cd51 100644
--- a/sfepy/postprocess/time_history.py
+++ b/sfepy/postprocess/time_history.py
@@ -103,6 +103,10 @@ def extract_times(filename):
 
     return steps, times, nts, dts
 
+def get_cell_vertices(mesh, iel):
+    conn = mesh.cmesh.get_conn(mesh.cmesh.tdim, 0)
+    return conn.indices[conn.offsets[iel]:conn.offsets[iel+1]]
+
 def extract_time_history(filename, extract, verbose=True):
     """Extract time history of a variable from a multi-time-step results file.
 
@@ -171,10 +175,9 @@ def extract_time_history(filename, extract, verbose=True):
             th = io.read_time_history(nname, pe.indx)
 
         elif pe.mode == 'e' and mode == 'vertex':
-            conn = mesh.conns[0]
             th = {}
             for iel in pe.indx:
-                ips = conn[iel]
+                ips = get_cell_vertices(mesh, iel)
                 th[iel] = io.read_time_history(nname, ips)
         else:
             raise ValueError('cannot extract cell data %s in nodes!' % pe.var)
-- 
2.43.0


From 511419d0f8526e78089fbcd9b44d46e59b7c709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 053/144] fix: close HDF5 results file when reading of history
 fails

The file could not be written until the end of the process.
---
 sfepy/discrete/fem/meshio.py | 44 +++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 51821f2..9ebb1f7 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -1276,7 +1276,11 @@ class HDF5MeshIO(MeshIO):
         fd = pt.open_file(filename, mode="r")
 
         if step is None:
-            step = int(self._get_step_group_names(fd)[0][4:])
+            try:
+                step = int(self._get_step_group_names(fd)[0][4:])
+            except IndexError:
+                fd.close()
+                raise ValueError('no time steps in "%s" file!' % filename)
 
         gr_name = 'step%d' % step
         try:
@@ -1354,17 +1358,14 @@ class HDF5MeshIO(MeshIO):
 
     def read_time_history(self, node_name, indx, filename=None):
         filename = get_default(filename, self.filename)
-        fd = pt.open_file(filename, mode="r")
-
         th = dict_from_keys_init(indx, list)
-        for gr_name in self._get_step_group_names(fd):
-            step_group = fd.get_node(fd.root, gr_name)
-            data = step_group._f_get_child(node_name).data
-
-            for ii in indx:
-                th[ii].append(nm.array(data[ii]))
+        with pt.open_file(filename, mode="r") as fd:
+            for gr_name in self._get_step_group_names(fd):
+                step_group = fd.get_node(fd.root, gr_name)
+                data = step_group._f_get_child(node_name).data
 
-        fd.close()
+                for ii in indx:
+                    th[ii].append(nm.array(data[ii]))
 
         for key, val in th.items():
             aux = nm.array(val)
@@ -1376,22 +1377,19 @@ class HDF5MeshIO(MeshIO):
 
     def read_variables_time_history(self, var_names, ts, filename=None):
         filename = get_default(filename, self.filename)
-        fd = pt.open_file(filename, mode="r")
-
-        assert_((fd.root.last_step[0] + 1) == ts.n_step)
-
         ths = dict_from_keys_init(var_names, list)
 
         arr = nm.asarray
-        for step in range(ts.n_step):
-            gr_name = 'step%d' % step
-            step_group = fd.get_node(fd.root, gr_name)
-            name_dict = step_group._v_attrs.name_dict
-            for var_name in var_names:
-                data = step_group._f_get_child(name_dict[var_name]).data
-                ths[var_name].append(arr(data.read()))
-
-        fd.close()
+        with pt.open_file(filename, mode="r") as fd:
+            assert_((fd.root.last_step[0] + 1) == ts.n_step)
+
+            for step in range(ts.n_step):
+                gr_name = 'step%d' % step
+                step_group = fd.get_node(fd.root, gr_name)
+                name_dict = step_group._v_attrs.name_dict
+                for var_name in var_names:
+                    data = step_group._f_get_child(name_dict[var_name]).data
+                    ths[var_name].append(arr(data.read()))
 
         return ths
 
-- 
2.43.0


From ce2fcfb171ea07f7c116419586c0377d5e13f753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 054/144] fix: evaluate coefficient expressions with names
 contained in other names

---
 sfepy/homogenization/coefs_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sfepy/homogenization/coefs_base.py b/sfepy/homogenization/coefs_base.py
index 21c15b1..6d779d9 100644
--- a/sfepy/homogenization/coefs_base.py
+++ b/sfepy/homogenization/coefs_base.py
@@ -1,4 +1,5 @@
 import os
+import re
 
 import numpy as nm
 from collections.abc import Iterable
@@ -861,8 +862,12 @@ class CoefEval(MiniAppBase):
     """
     def __call__(self, volume, problem=None, data=None):
         expr = self.expression
-        for req in self.requires:
-            expr = expr.replace(req, "data['%s']" % req)
+        if self.requires:
+            # Replace whole names only: a name can be a part of another one.
+            names = '|'.join(re.escape(req) for req in
+                             sorted(self.requires, key=len, reverse=True))
+            expr = re.sub(r'(?<![\w.])(%s)(?!\w)' % names,
+                          lambda m: "data['%s']" % m.group(1), expr)
 
         coef = eval(expr)
 
-- 
2.43.0


From 0d5f26f26b9180162c12e0d11dbe3cd6df33b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 055/144] fix: do not modify user definitions of coefficients
 in homogenization engine

---
 sfepy/homogenization/engine.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index a8d1081..c44ae58 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -636,15 +636,18 @@ class HomogenizationEngine(PDESolverApp):
                 cf_vols[cfkey] = {'expression': vv['expression'],
                                   'class': CoefVolume}
 
-        for cf in coef_info.values():
-            if 'requires' in cf:
-                cf['requires'] += vcfkeys
-            else:
-                cf['requires'] = vcfkeys
+        # Do not modify the definitions given by the user.
+        new_coef_info = {}
+        for key, cf in coef_info.items():
+            if key != 'filenames':
+                cf = dict(cf)
+                cf['requires'] = list(cf.get('requires', [])) + vcfkeys
+
+            new_coef_info[key] = cf
 
-        coef_info.update(cf_vols)
+        new_coef_info.update(cf_vols)
 
-        return coef_info
+        return new_coef_info
 
     def recover(self, corrs, rhook, macro_data):
         if self.app_options.multiprocessing and multiproc.use_multiprocessing:
-- 
2.43.0


From bffb0de72ae3cc082e29c99e7f5be8f73cc444fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 056/144] fix: store results of selected microstructures in
 chunked parallel homogenization

---
 sfepy/homogenization/engine.py | 38 +++++++++++++---------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index c44ae58..e47229f 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -61,20 +61,6 @@ def rm_chtag(key):
     return key[:idx] if idx > 0 else key
 
 
-def chunk_req_info(name, req_info):
-    idx = name.find('|ch:')
-    if idx > 0:
-        name0, ctag = name[:idx], name[idx:]
-        out = req_info[name0].copy()
-        reqs = out.get('requires', [])
-        if len(reqs) > 0:
-            out['requires'] = [k + ctag for k in reqs]
-
-        return out
-    else:
-        return req_info[name]
-
-
 class CoefVolume(MiniAppBase):
     def __call__(self, volume, problem=None, data=None):
         problem = get_default(problem, self.problem)
@@ -272,7 +258,7 @@ class HomogenizationWorker:
         if name.startswith('c.'):
             output('computing %s...' % name[2:])
 
-            cargs = chunk_req_info(name[2:], coef_info)
+            cargs = coef_info[name[2:]]
             mini_app = MiniAppBase.any_from_conf(name[2:], problem, cargs)
             problem.clear_equations()
 
@@ -289,7 +275,7 @@ class HomogenizationWorker:
         else:
             output('computing dependency %s...' % name)
 
-            rargs = chunk_req_info(name, req_info)
+            rargs = req_info[name]
             mini_app = MiniAppBase.any_from_conf(name, problem, rargs)
             mini_app.setup_output(save_formats=opts.save_formats,
                                   post_process_hook=post_process_hook,
@@ -330,14 +316,11 @@ class HomogenizationWorker:
             for ii in range(nchunk):
                 lab = f'|ch:{ii}'
                 key = k + lab
-                val = new[key] = {}
+                val = new[key] = dict(v)
                 if 'requires' in v:
                     val['requires'] = [jj + lab for jj in v['requires']]
                 if len(store_idxs) > 0:
-                    if len(store_idxs[ii][0]) > 0:
-                        val['store_idxs'] = store_idxs[ii]
-                    else:
-                        val['save_name'] = None
+                    val['store_idxs'] = store_idxs[ii]
 
         return new
 
@@ -442,6 +425,9 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
         else:
             micro_chunk_tab = None
             req_info_ch, coef_info_ch = req_info, coef_info
+            if micro_states is not None:
+                req_info_ch = {k: dict(v, store_idxs=(store_micro_idxs, 0))
+                               for k, v in req_info.items()}
 
         workers = multiproc.get_workers()
         if workers is None:
@@ -450,7 +436,7 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
             workers = multiproc.init_workers(conf_file_dir, max_workers)
 
         wfun = partial(HomogenizationWorkerMulti.calculate_req, problem,
-                       options, post_process_hook, req_info, coef_info,
+                       options, post_process_hook, req_info_ch, coef_info_ch,
                        dependencies, micro_states, time_tag, micro_chunk_tab)
 
         sorted_names = self.get_sorted_dependencies(req_info_ch, coef_info_ch,
@@ -491,8 +477,12 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                 remaining -= 1
 
         if micro_chunk_tab is not None:
-            dependencies = self.dechunk_reqs_coefs(dependencies,
-                                                   len(micro_chunk_tab))
+            num_chunks = len(micro_chunk_tab)
+            dependencies = self.dechunk_reqs_coefs(dependencies, num_chunks)
+            save_names = {
+                key: sum([save_names.get(f'{key}|ch:{ii}', [])
+                          for ii in range(num_chunks)], [])
+                for key in {rm_chtag(k): None for k in save_names}}
         else:
             dependencies = dependencies.copy()
 
-- 
2.43.0


From f24bea00c0466ab1b80b2c492b461842eb7b7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:25 +0000
Subject: [PATCH 057/144] fix: compute_only option in chunked parallel
 homogenization

---
 sfepy/homogenization/engine.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/homogenization/engine.py b/sfepy/homogenization/engine.py
index e47229f..7475e06 100644
--- a/sfepy/homogenization/engine.py
+++ b/sfepy/homogenization/engine.py
@@ -439,8 +439,13 @@ class HomogenizationWorkerMulti(HomogenizationWorker):
                        options, post_process_hook, req_info_ch, coef_info_ch,
                        dependencies, micro_states, time_tag, micro_chunk_tab)
 
+        compute_only = options.compute_only
+        if compute_only is not None and micro_chunk_tab is not None:
+            compute_only = [f'{key}|ch:{ii}' for key in compute_only
+                            for ii in range(len(micro_chunk_tab))]
+
         sorted_names = self.get_sorted_dependencies(req_info_ch, coef_info_ch,
-                                                    options.compute_only)
+                                                    compute_only)
 
         # calculate number of dependencies and inverse map
         numdeps = {}
-- 
2.43.0


From a155528a07750b6a480081fe15b81ef4f8c3bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 058/144] fix: forget reduced state with LCBCs when parts of
 the full state are set

---
 sfepy/discrete/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index b03b971..76cd74e 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -874,6 +874,9 @@ class Variables(Container):
         if vec is None:
             vec = self.vec
             self.invalidate_evaluate_caches(step=0)
+            if self.has_lcbc:
+                # The reduced DOFs do not correspond to the new state.
+                self.r_vec = None
 
         else:
             self.check_vec_size(vec, reduced=False)
-- 
2.43.0


From 84d36d33d3e45043982e4c1515d23feeb2b1697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 059/144] fix: nodal combination LCBCs with zero coefficients

---
 sfepy/discrete/fem/lcbc_operators.py | 42 ++++++----------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 6389522..962161d 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -685,40 +685,16 @@ class NodalLCOperator(MRLCBCOperator):
 
             assert_(len(sol) == n_ceq)
 
-            imasters = []
-            ifixed = []
-            islaves = set()
-            ccs = []
-            for key, _poly in sol.items():
-                imaster = int(key.name[1:])
-                imasters.append(imaster)
-
-                if not isinstance(_poly, sm.Float):
-                    poly = _poly.as_poly()
-
-                    # Workaround for poly.all_coeffs() not applicable to
-                    # multivariate polynomials.
-                    coefs = []
-                    for ii, uu in enumerate(us):
-                        if poly.has(uu):
-                            coefs.append(poly.coeff_monomial(uu))
-                            islaves.add(ii)
-                    coefs.append(poly.TC())
-                    ccs.append(coefs)
-
-                else: # Degenerated constraint - fixed master.
-                    ifixed.append(imaster)
-                    ccs.append([float(_poly)])
-
-            islaves = sorted(islaves)
-
-            for ii, imaster in enumerate(imasters):
-                coefs = ccs[ii]
+            imasters = [int(key.name[1:]) for key in sol.keys()]
+            # All the other DOFs are independent, even those not present in
+            # the solution.
+            islaves = [ii for ii in range(dpn) if ii not in imasters]
 
-                em = dpn * im + imaster
-                rhss[em] = coefs[-1]
+            for imaster, expr in zip(imasters, sol.values()):
+                poly = sm.Poly(expr, *us)
 
-                if imaster in ifixed: continue
+                em = dpn * im + imaster
+                rhss[em] = poly.coeff_monomial(1)
 
                 # Master DOF is expressed in terms of slave DOFs.
                 for ii, islave in enumerate(islaves):
@@ -726,7 +702,7 @@ class NodalLCOperator(MRLCBCOperator):
 
                     rows.append(em)
                     cols.append(es)
-                    data.append(coefs[ii])
+                    data.append(poly.coeff_monomial(us[islave]))
 
             # Slave DOFs are copied.
             for ii, islave in enumerate(islaves):
-- 
2.43.0


From cfc98425f7c8955542209a66b3c4d666f5ec85d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 060/144] fix: average force LCBCs without rotation DOFs

---
 sfepy/discrete/fem/lcbc_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 962161d..c58999f 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -314,7 +314,7 @@ class AverageForceOperator(LCBCOperator):
 
         else:
             # As above, but S = I(dim) -> simplified code.
-            mtx_ws = (nm.eye(dim) * sweights[..., None])
+            mtx_ws = (nm.eye(dim) * sweights[:, :dim, None])
             mtx_ix = mtx_ws.sum(axis=0)
             mtx_x = nm.linalg.inv(mtx_ix)
 
-- 
2.43.0


From 584d1d6b3ef28900e4c99e89a842405b1f3700c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 061/144] fix: thread shift along axis in rigid twist LCBCs

---
 sfepy/discrete/fem/lcbc_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index c58999f..ba26160 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -423,8 +423,8 @@ class RigidTwistOperator(MRLCBCOperator):
         mtx_mr = _create_spin_matrix(mr).reshape((n_mnod * dim, -1))
         mtx_sr = _create_spin_matrix(sr).reshape((n_snod * dim, -1))
 
-        mtx_mw = -0.5 * (mtx_mr + thread) @ self.axis
-        mtx_sw = 0.5 * (mtx_sr + thread) @ self.axis
+        mtx_mw = -0.5 * (mtx_mr + thread * mtx_me) @ self.axis
+        mtx_sw = 0.5 * (mtx_sr + thread * mtx_se) @ self.axis
 
         mtx = nm.vstack((
             nm.hstack((mtx_me, mtx_mr, mtx_mw[:, None])),
-- 
2.43.0


From b69e4b681ad93f9698fd765e47dfe5381ff56a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 062/144] fix: meshes with several groups of the same element
 type

The cells of such groups were duplicated by writing, pickling etc.
---
 sfepy/discrete/fem/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 5878863..6622379 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -378,7 +378,8 @@ class Mesh(Struct):
         if ngroups is None:
             ngroups = nm.zeros((coors.shape[0],), dtype=nm.int32)
 
-        self.descs = descs
+        # Several groups can have the same element type.
+        self.descs = list(dict.fromkeys(descs))
         self.nodal_bcs = get_default(nodal_bcs, {})
 
         max_tdim = nm.max([int(k[0]) for k in descs])
-- 
2.43.0


From 89180a2775a146ce8529d3506a73ba51933ee006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 063/144] fix: keep nodal BCs and lower-dimensional cells in
 mesh copies and pickles

---
 sfepy/discrete/fem/mesh.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 6622379..95b3d33 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -303,7 +303,7 @@ class Mesh(Struct):
             self._set_shape_info()
 
     def __reduce__(self):
-        io_data = self._get_io_data() + (None,)
+        io_data = self._get_io_data() + (self.nodal_bcs,)
         return (Mesh, (self.name, None, io_data))
 
     def copy(self, name=None):
@@ -318,8 +318,16 @@ class Mesh(Struct):
         if name is None:
             name = self.name
 
-        cmesh = self.cmesh.create_new()
-        return Mesh(name=name, cmesh=cmesh)
+        if sum(cmesh is not None for cmesh in self.cmesh_tdim) == 1:
+            mesh = Mesh(name=name, cmesh=self.cmesh.create_new())
+
+        else:
+            mesh = Mesh(name=name, io_data=self._get_io_data())
+
+        mesh.nodal_bcs = {key: nm.array(val)
+                          for key, val in self.nodal_bcs.items()}
+
+        return mesh
 
     def __add__(self, other):
         """
-- 
2.43.0


From 04f56bd2cef9e73a862a56c9c9299a484812ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 064/144] fix: Mesh.create_conn_graph() with several element
 types

---
 sfepy/discrete/fem/mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 95b3d33..21b4e12 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -558,8 +558,8 @@ class Mesh(Struct):
         timer = Timer(start=True)
 
         graph = 0
-        for tdim in self.dims:
-            conn = self.get_conn(self.descs[0], tdim=tdim)
+        for tdim, desc in zip(self.dims, self.descs):
+            conn = self.get_conn(desc, tdim=tdim)
             graph += create_dof_graph(conn, conn, shape).tocsr()
 
         output('...done in %.2f s' % timer.stop(), verbose=verbose)
-- 
2.43.0


From 8bae8a6ef9bc266ce4b891aafbfb29fbe37a72cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 065/144] fix: cell groups of meshes with several element types
 in cell sets

The cell sets are local to the cell blocks.
---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 9ebb1f7..474071f 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -531,7 +531,7 @@ class MeshioLibIO(MeshIO):
 
             for k in cgrps:
                 idxs = nm.where(cmesh.cell_groups[cidxs] == k)[0]
-                cell_sets[str(k)].append(cidxs[idxs])
+                cell_sets[str(k)].append(idxs)
 
         if self.file_format in ['vtk', 'vtk-ascii', 'vtk-binary', 'vtu']:
             point_sets, cell_sets = None, None
-- 
2.43.0


From 9279ccef8a8701ad6753d9de89eab75d4ca97752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 066/144] fix: material ids when reading meshes with
 omit_facets=True

---
 sfepy/discrete/fem/meshio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 474071f..7744351 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -447,9 +447,11 @@ class MeshioLibIO(MeshIO):
 
                 continue
 
-            if (not omit_facets) or (c.dim == dim):
-                cells.append(c.data)
-                cell_types.append(self.cell_types[(c.type, dim)])
+            if omit_facets and (c.dim != dim):
+                continue
+
+            cells.append(c.data)
+            cell_types.append(self.cell_types[(c.type, dim)])
 
             if cgdata is not None:
                 cgroups.append(nm.asarray(cgdata[ic]).flatten())
-- 
2.43.0


From 60c259deacaae2dcc655ddf7f6eb962aa980617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 067/144] fix: reading of planar meshes not in the x-y plane
 from VTK files

The coordinates of the last axes were dropped instead of the ignored ones.
---
 sfepy/discrete/fem/meshio.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 7744351..e9b9fcd 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -355,7 +355,7 @@ class MeshioLibIO(MeshIO):
                 file_format = _filetypes_from_path(pathlib.Path(filename))[-1]
 
         self.file_format = file_format
-        # If True, ignore axes with all-equal coordinates.
+        # If True, ignore last axes with all-equal coordinates.
         self.squeeze = self.file_format in ('vtk', 'vtu')
 
     def read_bounding_box(self, ret_dim=False):
@@ -372,9 +372,10 @@ class MeshioLibIO(MeshIO):
 
     @staticmethod
     def _get_dimension(points, squeeze=True):
-        if squeeze: # Ignore axes with all-equal coordinates.
-            dim = nm.sum(nm.max(points, axis=0)
-                         - nm.min(points, axis=0) > 1e-15)
+        if squeeze: # Ignore last axes with all-equal coordinates.
+            axes = nm.where(nm.max(points, axis=0)
+                            - nm.min(points, axis=0) > 1e-15)[0]
+            dim = axes[-1] + 1 if len(axes) else 0
 
         else:
             dim = points.shape[1]
-- 
2.43.0


From 7f906a69a6298fb313da0c364e6a91247bb45009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 068/144] fix: read cell data of all element types from mesh
 files

---
 sfepy/discrete/fem/meshio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index e9b9fcd..04e6144 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -585,7 +585,7 @@ class MeshioLibIO(MeshIO):
             out[key] = Struct(name=key, mode='vertex', data=aux)
 
         for key, data in m.cell_data.items():
-            aux = _fix_shape(data[0]).astype(nm.float64)
+            aux = _fix_shape(nm.concatenate(data)).astype(nm.float64)
             if key.endswith(':ref'):
                 key = 'mat_id'
             out[key] = Struct(name=key, mode='cell', data=aux)
-- 
2.43.0


From b0f13426ca4b8955d85754fac41a581ace876cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 069/144] fix: refuse meshes not supported by the XYZ format,
 read 1D meshes

---
 sfepy/discrete/fem/meshio.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 04e6144..2b14b44 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -2328,7 +2328,7 @@ class XYZMeshIO(MeshIO):
 
     def _read_coors(self):
         coors = nm.loadtxt(self.filename, ndmin=2)
-        if (coors[:, -1] == 0).all():
+        while (coors.shape[1] > 1) and (coors[:, -1] == 0).all():
             coors = coors[:, :-1].copy()
 
         return coors
@@ -2377,14 +2377,18 @@ class XYZMeshIO(MeshIO):
         return mesh
 
     def write(self, filename, mesh, out=None, **kwargs):
-        coors, ngroups, conns, mat_ids, desc = mesh._get_io_data()
+        coors, ngroups, conns, mat_ids, descs = mesh._get_io_data()
         n_nod, dim = coors.shape
 
+        if (len(descs) > 1) or (int(descs[0][0]) != dim):
+            raise ValueError('XYZ format supports only a single element type of'
+                             ' the space dimension! (%s)' % descs)
+
         zz = nm.zeros((n_nod, 3-dim))
         nm.savetxt(filename, nm.c_[coors, zz])
 
         conn_ext = '.IEN' if op.splitext(filename)[1].isupper() else '.ien'
-        nm.savetxt(edit_filename(self.filename, new_ext=conn_ext),
+        nm.savetxt(edit_filename(filename, new_ext=conn_ext),
                    conns[0] + 1, fmt='%d')
 
         if out is not None:
-- 
2.43.0


From 54c550e576d0f5e61af8ae5b2fc8010b6462e834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 070/144] fix: integer vertex and cell groups when reading
 meshes using meshio

Real groups read from the gmsh format were lost when writing to other formats.
---
 sfepy/discrete/fem/meshio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/meshio.py b/sfepy/discrete/fem/meshio.py
index 2b14b44..cdba9b6 100644
--- a/sfepy/discrete/fem/meshio.py
+++ b/sfepy/discrete/fem/meshio.py
@@ -398,7 +398,8 @@ class MeshioLibIO(MeshIO):
                 break
 
         if ngkey is not None:
-            ngroups = nm.asarray(m.point_data[ngkey]).flatten()
+            ngroups = nm.asarray(m.point_data[ngkey],
+                                 dtype=nm.int32).flatten()
         elif hasattr(m, 'point_sets') and len(m.point_sets) > 0:
             ngroups = nm.zeros((len(m.points),), dtype=nm.int32)
             keys = list(m.point_sets.keys())
@@ -455,7 +456,8 @@ class MeshioLibIO(MeshIO):
             cell_types.append(self.cell_types[(c.type, dim)])
 
             if cgdata is not None:
-                cgroups.append(nm.asarray(cgdata[ic]).flatten())
+                cgroups.append(nm.asarray(cgdata[ic],
+                                          dtype=nm.int32).flatten())
             else:
                 cgroups.append(nm.ones((len(c.data),), dtype=nm.int32))
 
-- 
2.43.0


From fbb2a80617d921e93e7ca5f738a281b663c5ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 071/144] fix: refine 1D meshes according to their connectivity

refine_1_2() assumed that the cells are ordered as the vertices.
---
 sfepy/discrete/fem/refine.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/refine.py b/sfepy/discrete/fem/refine.py
index 1053ec7..49943bb 100644
--- a/sfepy/discrete/fem/refine.py
+++ b/sfepy/discrete/fem/refine.py
@@ -16,13 +16,18 @@ def refine_1_2(mesh_in):
 
     cmesh = mesh_in.cmesh
     c_centres = cmesh.get_centroids(cmesh.tdim)
-    new_coors = nm.zeros((2*mesh_in.n_nod - 1, 1))
-    new_coors[0::2] = mesh_in.coors
-    new_coors[1::2] = c_centres
 
-    n_nod = len(new_coors)
-
-    new_conn = nm.arange(n_nod, dtype=nm.uint32).repeat(2)[1:-1].reshape((-1, 2))
+    # Keep the coordinates sorted.
+    coors = nm.r_[mesh_in.coors, c_centres]
+    order = nm.argsort(coors[:, 0], kind='stable')
+    new_coors = coors[order]
+    remap = nm.empty(len(order), dtype=nm.uint32)
+    remap[order] = nm.arange(len(order), dtype=nm.uint32)
+
+    conn = mesh_in.get_conn('1_2')
+    centres = mesh_in.n_nod + nm.arange(conn.shape[0])
+    new_conn = remap[nm.c_[conn[:, 0], centres, centres, conn[:, 1]]]
+    new_conn = new_conn.reshape((-1, 2))
 
     new_mat_id = cmesh.cell_groups.repeat(2)
 
-- 
2.43.0


From 91c34b759cc72e894b1ba01022dc082bdfabeb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 072/144] fix: keep edge substitutions of hanging nodes without
 faces

The edge substitutions of 3D refinement were lost when there were no face
substitutions, or none in the previous refinements.
---
 sfepy/discrete/fem/fields_nodal.py   |  3 ++-
 sfepy/discrete/fem/refine_hanging.py | 21 +++++++--------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/sfepy/discrete/fem/fields_nodal.py b/sfepy/discrete/fem/fields_nodal.py
index ef2ed5a..044ccf4 100644
--- a/sfepy/discrete/fem/fields_nodal.py
+++ b/sfepy/discrete/fem/fields_nodal.py
@@ -327,7 +327,8 @@ class H1NodalMixin(H1Mixin, GlobalNodalLikeBasis):
             fsubs = subs[0]
             esubs = subs[1]
 
-            assign_transform(transform, bf, fsubs, rffield.efaces)
+            if fsubs is not None:
+                assign_transform(transform, bf, fsubs, rffield.efaces)
             if esubs is not None:
                 assign_transform(transform, bf, esubs, rffield.eedges)
 
diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index 3106b19..6726b10 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -313,23 +313,16 @@ def refine(domain0, refine, subs=None, ret_sub_cells=False):
         subs1e = find_facet_substitutions(facets[oe:], cells[oe:],
                                           sub_cells, refine_edges_3_8)
 
-        if subs is None:
-            subs = (subs1f if len(subs1f) else None,
-                    subs1e if len(subs1f) else None) # !!!
-
-        elif len(subs1f):
-            subsf, subse = subs
-
-            subsf = nm.r_[subsf, subs1f]
+        def _join(subs0, subs1):
+            if not len(subs1):
+                return subs0
 
-            if len(subse):
-                if len(subs1e):
-                    subse = nm.r_[subse, subs1e]
+            return subs1 if subs0 is None else nm.r_[subs0, subs1]
 
-            subs = (subsf, subse)
+        subsf, subse = (None, None) if subs is None else subs
+        subs = (_join(subsf, subs1f), _join(subse, subs1e))
 
-        if (isinstance(subs, tuple)
-            and (subs[0] is None) and (subs[1] is None)): subs = None
+        if (subs[0] is None) and (subs[1] is None): subs = None
 
     out = (domain, subs)
     if ret_sub_cells:
-- 
2.43.0


From 1780d972529aa91bbf13b5854471710a5f985a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 073/144] fix: refuse to refine cells adjacent to hanging nodes

Only a single level of hanging nodes is supported by refine(), the resulting
mesh contained duplicate vertices and cracks.
---
 sfepy/discrete/fem/refine_hanging.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index 6726b10..de1477f 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -282,6 +282,13 @@ def refine(domain0, refine, subs=None, ret_sub_cells=False):
     desc = domain0.mesh.descs[0]
     assert_(desc in ['2_4', '3_8'])
 
+    if subs is not None:
+        flag = nm.asarray(refine).astype(bool)
+        for sub in (subs if isinstance(subs, tuple) else (subs,)):
+            if (sub is not None) and flag[sub[:, ::2]].any():
+                raise ValueError('cells adjacent to hanging nodes'
+                                 ' cannot be refined!')
+
     facets, cells, oe, region0, region1 = find_level_interface(domain0, refine)
 
     if region1 is None:
-- 
2.43.0


From 1a2489b650eb95b030a162c922c55e4ba79f81fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 074/144] fix: removing unused vertices of meshes with several
 cell kinds

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 2c1ef9f..e395875 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -449,7 +449,7 @@ def get_cell_vertices_only(mesh):
         FE mesh
     """
     data = list(mesh._get_io_data())
-    vertices = nm.unique([nm.unique(conn.ravel()) for conn in data[2]])
+    vertices = nm.unique(nm.hstack([conn.ravel() for conn in data[2]]))
 
     remap = prepare_translate(vertices, nm.arange(len(vertices)))
 
-- 
2.43.0


From 159b94a6f9de887c0927ec77674029ca9b00c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 075/144] fix: extrude triangles to conforming tetrahedra

The diagonals of quadrilaterals shared by two split wedges did not agree.
For meshes with several cell kinds, the material ids of the tetrahedra were
wrong.
---
 sfepy/mesh/mesh_tools.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index e395875..7363b20 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -682,13 +682,23 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
             emat_ids = mat_ids[cidxs]
             if econns.shape[1] == 6:
                 if wedge_to_tetra:  # wedges -> 3 x tetrahedron
+                    # The same diagonals of quadrilaterals shared by wedges.
+                    order = nm.argsort(econns[:, :3], axis=1)
+                    wedges = nm.take_along_axis(econns,
+                                                nm.c_[order, order + 3],
+                                                axis=1)
+                    flip = (order[:, 1] - order[:, 0]) % 3 == 2
+
                     econns1 = nm.empty((3* econns.shape[0], 4),
                                        dtype=econns.dtype)
-                    econns1[0::3] = econns[:, [0, 1, 2, 5]]
-                    econns1[1::3] = econns[:, [0, 1, 5, 4]]
-                    econns1[2::3] = econns[:, [0, 4, 5, 3]]
+                    econns1[0::3] = wedges[:, [0, 1, 2, 5]]
+                    econns1[1::3] = wedges[:, [0, 1, 5, 4]]
+                    econns1[2::3] = wedges[:, [0, 4, 5, 3]]
+
+                    flip = nm.repeat(flip, 3)
+                    econns1[flip] = econns1[flip][:, [1, 0, 2, 3]]
                     econns = econns1
-                    emat_ids = nm.repeat(mat_ids, 3)
+                    emat_ids = nm.repeat(emat_ids, 3)
 
             new_conns.append(econns)
             new_mat_ids.append(emat_ids)
-- 
2.43.0


From 56a9ae2cc2f916e037d469a7af48ed4ff0339c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 076/144] fix: revolve around axis given by a vector of any
 length

---
 sfepy/mesh/mesh_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 7363b20..6d16945 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -811,6 +811,7 @@ def revolve(mesh, nphi, p, v=(1, 0, 0), phi_max=None, wedge_to_tetra=True):
 
     p = nm.array(p)[None, :]
     v = nm.array(v)
+    v = v / nm.linalg.norm(v)
 
     coors = mesh.coors
     ccoor = nm.mean(coors, axis=0)
-- 
2.43.0


From f3dbe14bada5eb325534d8437e57572244adc655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 077/144] fix: volume correction in smooth_mesh()

The non-existent Mesh.conns attribute was used, the centre of gravity was
divided by a wrong number of vertices and the coordinates were scaled by the
ratio of volumes.
---
 sfepy/mesh/mesh_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 6d16945..88ce1b4 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -140,7 +140,7 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
         if etype == '2_4' or etype == '3_8':
             el = elems_q2t(el)
 
-        nel = el.shape[0]
+        nel, nnd = el.shape
 
         #bc = nm.zeros((dim, ), dtype=nm.double)
         mul = 1.0 / factorial(dim)
@@ -208,10 +208,11 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
     if volume_corr:
         output('rescaling...')
         timer.start()
-        volume0, bc = get_volume(mesh.conns[0], mesh.coors)
-        volume, _ = get_volume(mesh.conns[0], coors)
+        conn = mesh.get_conn(mesh.descs[0])
+        volume0, bc = get_volume(conn, mesh.coors)
+        volume, _ = get_volume(conn, coors)
 
-        scale = volume0 / volume
+        scale = (volume0 / volume)**(1.0 / mesh.dim)
         output('scale factor: %.2f' % scale)
 
         coors = (coors - bc) * scale + bc
-- 
2.43.0


From d6fe10927990c309e3fa4da31ae1f34da1c23b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 078/144] fix: refuse to tile meshes with several cell kinds

Only the cells of the first kind were used.
---
 sfepy/mesh/mesh_generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index d6490cd..9ebc961 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -544,6 +544,10 @@ def gen_tiled_mesh(mesh, grid=None, scale=1.0, eps=1e-6, ret_ndmap=False):
     ndmap : array
         Maps: actual node id --> node id in the reference cell.
     """
+    if len(mesh.descs) > 1:
+        raise ValueError('meshes with several cell kinds cannot be tiled! (%s)'
+                         % mesh.descs)
+
     bbox = mesh.get_bounding_box()
 
     if grid is None:
-- 
2.43.0


From 81c356096974b2c32e2109c83350510951b0fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:51 +0000
Subject: [PATCH 079/144] fix: fixing nodes with three or more copies

The connectivity contained invalid vertices.
---
 sfepy/discrete/fem/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 21b4e12..c069392 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -93,6 +93,9 @@ def fix_double_nodes(coor, ngroups, conns):
             ii = nm.argsort(cmap[:,1])
             scmap = cmap[ii]
 
+            # Skip nodes that are copies of other nodes in the first column.
+            scmap = scmap[~nm.isin(scmap[:,0], scmap[:,1] % n_nod)]
+
             eq = nm.arange(n_nod)
             eq[scmap[:,1]] = -1
             eqi = eq[eq >= 0]
-- 
2.43.0


From 4f68926568ab65b574a4d8c2dc2d85306996eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 080/144] fix: keep substitutions in refine() when no cells are
 refined

---
 sfepy/discrete/fem/refine_hanging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index de1477f..0884771 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -292,7 +292,12 @@ def refine(domain0, refine, subs=None, ret_sub_cells=False):
     facets, cells, oe, region0, region1 = find_level_interface(domain0, refine)
 
     if region1 is None:
-        return domain0, None
+        out = (domain0, subs)
+        if ret_sub_cells:
+            n_sub = 4 if desc == '2_4' else 8
+            out += (nm.empty((0, n_sub + 1), dtype=nm.uint32),)
+
+        return out
 
     domain, sub_cells = refine_region(domain0, region0, region1)
 
-- 
2.43.0


From ac89b3a40fe144381789a0e0d55ff7d647104c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 081/144] fix: refuse to merge meshes with several cell kinds

Only the cells of the first kind were used.
---
 sfepy/discrete/fem/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index c069392..96a07ad 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -337,6 +337,10 @@ class Mesh(Struct):
         Merge the two meshes, assuming they have the same kind of the single
         element group.
         """
+        if (len(self.descs) > 1) or (self.descs != other.descs):
+            raise ValueError('only meshes with the same single cell kind can'
+                             ' be merged! (%s, %s)' % (self.descs, other.descs))
+
         cmap = find_map(self.coors, other.coors)
         desc = self.descs[0]
         aux = merge_mesh(self.coors, self.cmesh.vertex_groups,
-- 
2.43.0


From 7044613949386d248465af35f961900a6252c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 082/144] fix: generate meshes of non-square voxel arrays

---
 sfepy/mesh/mesh_generators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index 9ebc961..1bc3659 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -761,6 +761,8 @@ def gen_mesh_from_voxels(voxels, dims, etype='q'):
     dims = nm.array(dims).squeeze()
     dim = len(dims)
     nddims = nm.array(voxels.shape) + 2
+    # See the order of axes below.
+    nddims[:2] = nddims[1::-1]
 
     nodemtx = nm.zeros(nddims, dtype=nm.int32)
 
-- 
2.43.0


From 3c67ae9ded1eb54a1bded0a8afea50e25fd507a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:20 +0000
Subject: [PATCH 083/144] fix: centre of cylinders generated along y, z axes

The coordinates of the centre were permuted.
---
 sfepy/mesh/mesh_generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index 1bc3659..3cf54b3 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -179,7 +179,7 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
         nl = 1
         is_2d_topo = True
 
-    origin = centre - nm.array([0.5 * length, 0.0, 0.0])
+    origin = nm.array([-0.5 * length, 0.0, 0.0])
 
     dfi = 2.0 * (nm.pi - open_angle) / nfi
     if is_open:
@@ -287,6 +287,8 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
     elif axis == 'y':
         coors = coors[:,[2,0,1]]
 
+    coors = coors + centre[:coors.shape[1]]
+
     mesh = Mesh.from_data(name, coors, None, [conn], [mat_id], [desc])
     return mesh
 
-- 
2.43.0


From 1c61e122caffb454ed47f521c093f8d3bea760fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:11 +0000
Subject: [PATCH 084/144] fix: reporting double nodes of the second mesh in
 find_map()

---
 sfepy/discrete/fem/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/mesh.py b/sfepy/discrete/fem/mesh.py
index 96a07ad..a3daa60 100644
--- a/sfepy/discrete/fem/mesh.py
+++ b/sfepy/discrete/fem/mesh.py
@@ -31,7 +31,7 @@ def find_map(x1, x2, allow_double=False, join=True):
             output('x1: %d %d -> %s %s' % (idxs[0], idxs[1],
                                            x1[idxs[0], :], x1[idxs[1], :]))
         for dn in dns2:
-            idxs = cmap[dn, :]
+            idxs = cmap[dn, :] - x1.shape[0]
             output('x2: %d %d -> %s %s' % (idxs[0], idxs[1],
                                            x2[idxs[0], :], x2[idxs[1], :]))
 
-- 
2.43.0


From c0461c93173e530306e18f80113592d50e8efc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 085/144] fix: do not reuse matching of other coordinates in
 periodic.py

The cache of matches ignored the coordinates, so that results for other regions
with the same number of nodes were returned.
---
 sfepy/discrete/fem/periodic.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index fa7c6a7..5ad4c5b 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -1,3 +1,5 @@
+import hashlib
+
 import numpy as nm
 
 from sfepy.discrete.fem.mesh import find_map
@@ -10,6 +12,16 @@ eps = 1e-9
 def set_accuracy(eps):
     globals()['eps'] = eps
 
+def _get_digest(*args):
+    """
+    Identify the coordinates, to be used as a part of the cache key.
+    """
+    aux = hashlib.sha256()
+    for coors in args:
+        aux.update(nm.ascontiguousarray(coors, dtype=nm.float64).tobytes())
+
+    return aux.hexdigest()
+
 ##
 # c: 18.10.2006, r: 05.05.2008
 def match_grid_line(coors1, coors2, which, get_saved=True):
@@ -20,7 +32,7 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
         raise ValueError('incompatible shapes: %s == %s'\
               % (coors1.shape, coors2.shape))
 
-    key = coors1.shape + ('line', which)
+    key = coors1.shape + ('line', which, _get_digest(coors1, coors2))
     if key in periodic_cache and get_saved:
         return periodic_cache[key]
     else:
@@ -59,7 +71,7 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
                          % (coors1.shape, coors2.shape))
 
     key_dir = None if direction is None else tuple(direction)
-    key = coors1.shape + ('dir', key_dir)
+    key = coors1.shape + ('dir', key_dir, _get_digest(coors1, coors2))
     if key in periodic_cache and get_saved:
         return periodic_cache[key]
     else:
-- 
2.43.0


From ec795480b1de5a98308c75d24d5544d86517e772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 086/144] fix: refuse to refine cells sharing an edge with
 hanging nodes

---
 sfepy/discrete/fem/refine_hanging.py | 34 ++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index 0884771..8c375fd 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -278,16 +278,42 @@ def find_facet_substitutions(facets, cells, sub_cells, refine_facets):
     subs = nm.array(subs)
     return subs
 
+def _is_next_to_hanging(domain, flag, subs):
+    """
+    Return True, if any of the cells with `flag` is adjacent to hanging nodes
+    given by the facet substitutions `subs`.
+    """
+    subs = subs if isinstance(subs, tuple) else (subs,)
+    for sub in subs:
+        if (sub is not None) and flag[sub[:, ::2]].any():
+            return True
+
+    cmesh = domain.cmesh
+    if cmesh.tdim == 3:
+        # Edges with a hanging node can be also in cells not in subs.
+        cmesh.setup_connectivity(2, 1)
+        edges = []
+        for edim, sub in zip((2, 1), subs):
+            if sub is None: continue
+            ents = cmesh.get_conn(3, edim).indices.reshape((cmesh.n_el, -1))
+            ents = ents[sub[:, 0], sub[:, 1]].astype(nm.uint32)
+            edges.append(cmesh.get_incident(1, ents, 2) if edim == 2 else ents)
+
+        cells = nm.nonzero(flag)[0].astype(nm.uint32)
+        cell_edges = cmesh.get_incident(1, cells, 3)
+        return nm.intersect1d(nm.hstack(edges), cell_edges).size > 0
+
+    return False
+
 def refine(domain0, refine, subs=None, ret_sub_cells=False):
     desc = domain0.mesh.descs[0]
     assert_(desc in ['2_4', '3_8'])
 
     if subs is not None:
         flag = nm.asarray(refine).astype(bool)
-        for sub in (subs if isinstance(subs, tuple) else (subs,)):
-            if (sub is not None) and flag[sub[:, ::2]].any():
-                raise ValueError('cells adjacent to hanging nodes'
-                                 ' cannot be refined!')
+        if _is_next_to_hanging(domain0, flag, subs):
+            raise ValueError('cells adjacent to hanging nodes'
+                             ' cannot be refined!')
 
     facets, cells, oe, region0, region1 = find_level_interface(domain0, refine)
 
-- 
2.43.0


From d289895589f58368ae9938245ab918fb1c3589e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 087/144] fix: forget the digest of an old matrix when another
 one without a digest is factorized

---
 sfepy/solvers/ls.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 4f47a90..fa6c472 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -46,7 +46,8 @@ def _get_cs_matrix_hash(mtx, chunk_size=100000):
 
 def _is_new_matrix(mtx, mtx_digest, force_reuse=False):
     if not isinstance(mtx, sps.csr_array):
-        return True, mtx_digest
+        # The digest is not available: never match a later matrix.
+        return True, (0, '')
 
     if force_reuse:
         return False, mtx_digest
@@ -208,7 +209,7 @@ class ScipyDirect(LinearSolver):
             is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest)
 
         else:
-            is_new, mtx_digest = False, None
+            is_new, mtx_digest = False, (0, '')
 
         if is_new or (self.solve is None):
             self.solve = self.sls.factorized(mtx.tocsc())
@@ -920,7 +921,7 @@ class MUMPSSolver(LinearSolver):
             is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest)
 
         else:
-            is_new, mtx_digest = False, None
+            is_new, mtx_digest = False, (0, '')
 
         if is_new or (self.mumps_ls is None):
             if not isinstance(mtx, sps.coo_array):
@@ -997,7 +998,7 @@ class CholeskySolver(ScipyDirect):
             is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest)
 
         else:
-            is_new, mtx_digest = False, None
+            is_new, mtx_digest = False, (0, '')
 
         if is_new or (self.solve is None):
             self.solve = self.sls(mtx.tocsc())
-- 
2.43.0


From 1d9e5fb95db4b90896217e0b3f7a04fb7f8b9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 088/144] fix: apply the iterative linear solver settings given
 in a call, call the configured callback

---
 sfepy/solvers/ls.py | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index fa6c472..9acb469 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -314,14 +314,13 @@ class ScipyIterative(LinearSolver):
                  i_max=None, mtx=None, status=None, context=None, **kwargs):
         solver_kwargs = self.build_solver_kwargs(conf)
 
-        eps_a = get_default(eps_a, self.conf.eps_a)
-        eps_r = get_default(eps_r, self.conf.eps_r)
-        i_max = get_default(i_max, self.conf.i_max)
+        eps_a = get_default(eps_a, conf.eps_a)
+        eps_r = get_default(eps_r, conf.eps_r)
+        i_max = get_default(i_max, conf.i_max)
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
-                                    self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+                                    conf.setup_precond)
+        callback = get_default(kwargs.get('callback', None), conf.callback)
 
         self.iter = 0
         def iter_callback(sol):
@@ -329,7 +328,7 @@ class ScipyIterative(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.method not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
@@ -339,7 +338,8 @@ class ScipyIterative(LinearSolver):
             output(msg, verbose=conf.verbose > 1)
 
             # Call an optional user-defined callback.
-            callback(sol)
+            if callback is not None:
+                callback(sol)
 
         precond = setup_precond(mtx, context)
 
@@ -465,11 +465,10 @@ class PyAMGSolver(LinearSolver):
                  i_max=None, mtx=None, status=None, **kwargs):
         solver_kwargs = self.build_solver_kwargs(conf)
 
-        eps_r = get_default(eps_r, self.conf.eps_r)
-        i_max = get_default(i_max, self.conf.i_max)
+        eps_r = get_default(eps_r, conf.eps_r)
+        i_max = get_default(i_max, conf.i_max)
 
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+        callback = get_default(kwargs.get('callback', None), conf.callback)
 
         self.iter = 0
         def iter_callback(sol):
@@ -477,7 +476,7 @@ class PyAMGSolver(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.accel not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
@@ -487,7 +486,8 @@ class PyAMGSolver(LinearSolver):
             output(msg, verbose=conf.verbose > 1)
 
             # Call an optional user-defined callback.
-            callback(sol)
+            if callback is not None:
+                callback(sol)
 
         is_new, mtx_digest = _is_new_matrix(mtx, self.mtx_digest,
                                             force_reuse=conf.force_reuse)
@@ -567,13 +567,12 @@ class PyAMGKrylovSolver(LinearSolver):
                  i_max=None, mtx=None, status=None, context=None, **kwargs):
         solver_kwargs = self.build_solver_kwargs(conf)
 
-        eps_r = get_default(eps_r, self.conf.eps_r)
-        i_max = get_default(i_max, self.conf.i_max)
+        eps_r = get_default(eps_r, conf.eps_r)
+        i_max = get_default(i_max, conf.i_max)
 
         setup_precond = get_default(kwargs.get('setup_precond', None),
-                                    self.conf.setup_precond)
-        callback = get_default(kwargs.get('callback', lambda sol: None),
-                               self.conf.callback)
+                                    conf.setup_precond)
+        callback = get_default(kwargs.get('callback', None), conf.callback)
 
         self.iter = 0
         def iter_callback(sol):
@@ -581,7 +580,7 @@ class PyAMGKrylovSolver(LinearSolver):
             msg = '%s: iteration %d' % (self.conf.name, self.iter)
             if conf.verbose > 2:
                 if conf.method not in self._callbacks_res:
-                    res = mtx * sol - rhs
+                    res = mtx @ sol - rhs
 
                 else:
                     res = sol
@@ -591,7 +590,8 @@ class PyAMGKrylovSolver(LinearSolver):
             output(msg, verbose=conf.verbose > 1)
 
             # Call an optional user-defined callback.
-            callback(sol)
+            if callback is not None:
+                callback(sol)
 
         precond = setup_precond(mtx, context)
 
-- 
2.43.0


From 336f4c589a39defaed7150e49ac81ce8fdf20f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:57 +0000
Subject: [PATCH 089/144] fix: pass context to a solver class in
 use_first_available()

---
 sfepy/solvers/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/solvers.py b/sfepy/solvers/solvers.py
index c68cfc7..850736e 100644
--- a/sfepy/solvers/solvers.py
+++ b/sfepy/solvers/solvers.py
@@ -90,7 +90,7 @@ def use_first_available(solver_list, context=None, **kwargs):
             if isinstance(solver, str):
                 out = Solver.any_from_conf(_conf, context=context, **kwargs)
             else:
-                out = solver(_conf, contex=context, **kwargs)
+                out = solver(_conf, context=context, **kwargs)
 
             output("using '%s' solver" % name)
             break
-- 
2.43.0


From 98cc81e3da1c25003c0c4952276897695a818410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 090/144] fix: do not drop imaginary part of right-hand side in
 direct linear solvers with real matrices

---
 sfepy/solvers/ls.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 9acb469..7d773e2 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -60,6 +60,18 @@ def _is_new_matrix(mtx, mtx_digest, force_reuse=False):
 
     return True, (id1, digest1)
 
+def _solve_factorized(solve, mtx, rhs):
+    """
+    Apply a factorization of `mtx` to `rhs`. A factorization of a real matrix
+    is applied to the real and imaginary parts of a complex right-hand side.
+    """
+    if nm.iscomplexobj(rhs) and not nm.issubdtype(mtx.dtype,
+                                                  nm.complexfloating):
+        return (solve(nm.ascontiguousarray(rhs.real))
+                + 1j * solve(nm.ascontiguousarray(rhs.imag)))
+
+    return solve(rhs)
+
 def standard_call(call):
     """
     Decorator handling argument preparation and timing for linear solvers.
@@ -193,10 +205,11 @@ class ScipyDirect(LinearSolver):
             self.presolve(mtx, use_mtx_digest=conf.use_mtx_digest)
 
             # Matrix is already prefactorized.
-            return self.solve(rhs)
+            return _solve_factorized(self.solve, mtx, rhs)
 
         else:
-            return self.sls.spsolve(mtx, rhs)
+            return _solve_factorized(lambda b: self.sls.spsolve(mtx, b),
+                                     mtx, rhs)
 
     def clear(self):
         if self.solve is not None:
@@ -908,7 +921,7 @@ class MUMPSSolver(LinearSolver):
 
         self.presolve(mtx, use_mtx_digest=conf.use_mtx_digest)
 
-        return self.mumps_ls.solve(rhs)
+        return _solve_factorized(self.mumps_ls.solve, mtx, rhs)
 
     def clear(self):
         if self.mumps_ls is not None:
@@ -991,7 +1004,7 @@ class CholeskySolver(ScipyDirect):
 
         self.presolve(mtx, use_mtx_digest=conf.use_mtx_digest)
 
-        return self.solve(rhs)
+        return _solve_factorized(self.solve, mtx, rhs)
 
     def presolve(self, mtx, use_mtx_digest=True):
         if use_mtx_digest:
-- 
2.43.0


From fb589d42b892bf561b40117035c888209cc993d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 091/144] fix: call SciPy minres() with arguments it has

---
 sfepy/solvers/ls.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 7d773e2..8b0e43e 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -1,4 +1,5 @@
 import hashlib
+import inspect
 
 import numpy as nm
 import warnings
@@ -370,14 +371,15 @@ class ScipyIterative(LinearSolver):
             if version.parse(sp.__version__) >= version.parse('1.4.0'):
                 solver_kwargs.update({'callback_type' : 'legacy'})
 
-        try:
-            sol, info = self.solver(mtx, rhs, x0=x0, atol=eps_a, rtol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
-        except TypeError:
-            sol, info = self.solver(mtx, rhs, x0=x0, tol=eps_r,
-                                    maxiter=i_max, callback=iter_callback,
-                                    **solver_kwargs)
+        # Not all the solvers have all the tolerances, old SciPy has tol.
+        pars = inspect.signature(self.solver).parameters
+        if 'atol' in pars:
+            solver_kwargs['atol'] = eps_a
+
+        solver_kwargs['rtol' if 'rtol' in pars else 'tol'] = eps_r
+
+        sol, info = self.solver(mtx, rhs, x0=x0, maxiter=i_max,
+                                callback=iter_callback, **solver_kwargs)
 
         output('%s: %s convergence: %s (%s, %d iterations)'
                % (self.conf.name, self.conf.method,
-- 
2.43.0


From 7f1e235b53b9b453f00b02183743f7944401347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 092/144] fix: pass LinearOperator preconditioners to SciPy
 qmr()

---
 sfepy/solvers/ls.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 8b0e43e..15570b1 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -358,6 +358,10 @@ class ScipyIterative(LinearSolver):
         precond = setup_precond(mtx, context)
 
         if conf.method == 'qmr':
+            if precond is not None:
+                from scipy.sparse.linalg import aslinearoperator
+                precond = aslinearoperator(precond)
+
             prec_args = {'M1' : precond, 'M2' : precond}
 
         else:
-- 
2.43.0


From ecbf72a54ee0d547413528875509144f6db9e557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 093/144] fix: update CholeskySolver for scikit-sparse 0.5

---
 sfepy/solvers/ls.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 15570b1..b2f61c8 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -993,9 +993,12 @@ class CholeskySolver(ScipyDirect):
         LinearSolver.__init__(self, conf, solve=None, **kwargs)
         self.sls = None
 
-        aux = try_imports(['from sksparse.cholmod import cholesky'],
+        aux = try_imports(['from sksparse.cholmod import cho_factor',
+                           'from sksparse.cholmod import cholesky'],
                           'cannot import cholesky sparse solver!')
-        if 'cholesky' in aux:
+        if 'cho_factor' in aux: # scikit-sparse >= 0.5
+            self.sls = lambda mtx: aux['cho_factor'](mtx).solve
+        elif 'cholesky' in aux:
             self.sls = aux['cholesky']
         else:
             raise ValueError('cholesky not available!')
-- 
2.43.0


From 770612e57f43a3fc4a154a0f1d3ef952ab5d222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 094/144] fix: create a new MUMPS object for a new matrix in
 MUMPSSolver

---
 sfepy/solvers/ls.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index b2f61c8..78212db 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -943,6 +943,9 @@ class MUMPSSolver(LinearSolver):
             is_new, mtx_digest = False, (0, '')
 
         if is_new or (self.mumps_ls is None):
+            # The symmetry and the data type are fixed in a MUMPS object.
+            self.clear()
+
             if not isinstance(mtx, sps.coo_array):
                 mtx = mtx.tocoo()
 
-- 
2.43.0


From ebccba561af6c18ffc07b40f45d79cdd1b8ff6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:36 +0000
Subject: [PATCH 095/144] fix: take sparsity pattern into account in
 MUMPSSolver.coo_is_symmetric()

---
 sfepy/solvers/ls.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sfepy/solvers/ls.py b/sfepy/solvers/ls.py
index 78212db..284efbd 100644
--- a/sfepy/solvers/ls.py
+++ b/sfepy/solvers/ls.py
@@ -902,14 +902,16 @@ class MUMPSSolver(LinearSolver):
         if idxs_l.shape[0] != idxs_u.shape[0]:
             return False
 
-        iu = nm.lexsort((row[idxs_u], col[idxs_u]))
-        il = nm.lexsort((col[idxs_l], row[idxs_l]))
-
-        err = nm.abs(data[idxs_u[iu]] - data[idxs_l[il]])
-        if nm.any(err/nm.abs(data[idxs_u].max()) >= tol):
+        iu = idxs_u[nm.lexsort((row[idxs_u], col[idxs_u]))]
+        il = idxs_l[nm.lexsort((col[idxs_l], row[idxs_l]))]
+        if nm.any(row[iu] != col[il]) or nm.any(col[iu] != row[il]):
             return False
 
-        return True
+        if iu.shape[0] == 0:
+            return True
+
+        err = nm.abs(data[iu] - data[il])
+        return not nm.any(err > tol * nm.abs(data).max())
 
     def __init__(self, conf, **kwargs):
         aux = try_imports(['import mumpspy as mumps', 'import mumps'],
-- 
2.43.0


From d8a031d909f9b15e8e8d672dbcbf16bdb042ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 096/144] fix: return the last evaluated state and condition 2
 with give_up_warp in Newton

---
 sfepy/solvers/nls.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..a689c2c 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -197,7 +197,9 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
 
         else: # Failure.
             if conf.give_up_warp:
+                # Return the last successfully evaluated state.
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -365,7 +367,9 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
 
         else: # Failure.
             if conf.give_up_warp:
+                # Return the last successfully evaluated state.
                 output('giving up!')
+                vec_x, vec_r, err = vec_x0, vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -642,14 +646,14 @@ class Newton(NonlinearSolver):
             if (self.log is not None) and ('iteration' in conf.log_vlines):
                 self.log.plot_vlines([1], color='g', linewidth=0.5)
 
-            condition = conv_test(conf, it, err, err0)
-            if condition >= 0:
-                break
-
             if (not ok) and conf.give_up_warp:
                 condition = 2
                 break
 
+            condition = conv_test(conf, it, err, err0)
+            if condition >= 0:
+                break
+
             timers.matrix.start()
             if not conf.is_linear:
                 if (is_new_jacobian(it, it_jac, vec_r, vec_r_last, vec_x,
-- 
2.43.0


From 525c555439d85fc72173a32e7907cca10078f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 097/144] fix: scaled linear system error in error mode line
 search in Newton

---
 sfepy/solvers/nls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a689c2c..7ed17e4 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -543,6 +543,7 @@ class Newton(NonlinearSolver):
             svec_dx = lin_solver(svec_r, x0=svec_x,
                                  eps_a=eps_a, eps_r=eps_r,
                                  status=ls_status)
+            smtx_a = lin_solver.mtx
 
         vec_dx = scale_solution(svec_dx, self.context)
         timers.solve.stop()
-- 
2.43.0


From a4c12e20c3b09bc8fcf778a3cbfe3c2026b45b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 098/144] fix: report condition 0 for converged ScipyRoot,
 allow report_status without status

---
 sfepy/solvers/nls.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index 7ed17e4..b16b930 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -776,13 +776,14 @@ class ScipyRoot(NonlinearSolver):
             status['err'] = err
             status['n_iter'] = nit
             status['n_fev'] = sol.nfev
-            status['condition'] = sol.status
+            # Zero means converged, as in the other solvers.
+            status['condition'] = 0 if sol.success else (sol.status or 1)
 
         if conf.report_status:
             output(sol.message)
             output(f'status: {sol.status}, iter: {nit},'
                    f' nfev: {sol.nfev}, err: {err:.8e}')
-            output('solver: %.8f [s]' % status['time_stats']['solver'])
+            output('solver: %.8f [s]' % timer.total)
 
         return sol.x
 
-- 
2.43.0


From cd6476865c6b8362ce933ae119916935520a820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 099/144] fix: restore also residuals of previous state in
 SemismoothNewton, report n_iter

---
 sfepy/solvers/semismooth_newton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..03fec6b 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -129,8 +129,6 @@ class SemismoothNewton(Newton):
                         vec_semismooth_r = nm.where(vec_a_r < vec_b_r,
                                                     vec_a_r, vec_b_r)
 
-                    r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_semismooth_r)
-
                     ok = True
 
                 time_stats['residual'] = timer.stop()
@@ -175,6 +173,7 @@ class SemismoothNewton(Newton):
                         vec_x = vec_x_last.copy()
                         (vec_smooth_r, vec_a_r, vec_b_r,
                          vec_semismooth_r) = r_last
+                        vec_r = nm.r_[vec_smooth_r, vec_semismooth_r]
                         err = err_last
                         reuse_matrix = True
 
@@ -203,6 +202,7 @@ class SemismoothNewton(Newton):
 
             err_last = err;
             vec_x_last = vec_x.copy()
+            r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_semismooth_r)
 
             condition = conv_test(conf, it, err, err0)
             if condition >= 0:
@@ -250,6 +250,7 @@ class SemismoothNewton(Newton):
             status['time_stats'] = time_stats
             status['err0'] = err0
             status['err'] = err
+            status['n_iter'] = it
             status['condition'] = condition
 
         if conf.log.plot is not None:
-- 
2.43.0


From 005cfad0f6c5d58355d70e5065a1c02053d8d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 100/144] fix: linear system error and iterations in Oseen

---
 sfepy/solvers/oseen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/oseen.py b/sfepy/solvers/oseen.py
index 72ef08c..8f03ae7 100644
--- a/sfepy/solvers/oseen.py
+++ b/sfepy/solvers/oseen.py
@@ -305,7 +305,7 @@ class Oseen(NonlinearSolver):
             time_stats['solve'] = timer.stop()
             ls_n_iter += ls_status['n_iter']
 
-            vec_e = mtx_a * vec_dx - vec_r
+            vec_e = mtx_a @ vec_dx - vec_r
             lerr = nla.norm(vec_e)
             if lerr > (conf.eps_a * conf.lin_red):
                 output('linear system not solved! (err = %e)' % lerr)
@@ -369,7 +369,7 @@ class Oseen(NonlinearSolver):
             status['err_ns'] = err_ns
             status['condition'] = condition
             status['n_iter'] = it
-            status['ls_n_iter'] = -1
+            status['ls_n_iter'] = ls_n_iter if ls_n_iter >= 0 else -1
             status['time'] = sum(v for v in time_stats.values())
 
         if conf.log.plot is not None:
-- 
2.43.0


From 7739f496064f42de1eb014e278dd81a65c4e8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:49 +0000
Subject: [PATCH 101/144] fix: row norms of sparse arrays in SemismoothNewton

---
 sfepy/solvers/semismooth_newton.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 03fec6b..bb06165 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -299,12 +299,10 @@ class SemismoothNewton(Newton):
                 mtx_a_z = mtx_a[iz]
                 mtx_b_z = mtx_b[iz]
 
-                sqrt_ab = nm.empty((iz.shape[0],), dtype=vec_a_r.dtype)
-                for ir in range(len(iz)):
-                    row_a_z = mtx_a_z[ir]
-                    row_b_z = mtx_b_z[ir]
-                    sqrt_ab[ir] = nm.sqrt((row_a_z @ row_a_z.T).todense()
-                                          + (row_b_z @ row_b_z.T).todense())
+                row_norms2 = lambda mtx: nm.asarray(
+                    mtx.multiply(mtx).sum(axis=1)
+                ).ravel()
+                sqrt_ab = nm.sqrt(row_norms2(mtx_a_z) + row_norms2(mtx_b_z))
                 mul_a[iz] = ((mtx_a_z @ vec_z) / sqrt_ab) - 1.0
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
-- 
2.43.0


From d74c248b112c4e70df85d1ea00f8afb5042826e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:49 +0000
Subject: [PATCH 102/144] fix: derivative of the minimum in non-smooth mode of
 SemismoothNewton

---
 sfepy/solvers/semismooth_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index bb06165..2e5b85c 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -307,7 +307,7 @@ class SemismoothNewton(Newton):
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
         else:
-            iz = nm.where(vec_a_r > vec_b_r)[0]
+            iz = nm.where(vec_a_r < vec_b_r)[0]
             mul_a = nm.zeros_like(vec_a_r)
             mul_b = nm.ones_like(mul_a)
 
-- 
2.43.0


From 0d287bc2ef9b71ffb2a0ed59104a48dc99b33369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 103/144] fix: ScipyRoot with df-sane method

---
 sfepy/solvers/nls.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index b16b930..0be3c7c 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -771,17 +771,19 @@ class ScipyRoot(NonlinearSolver):
         err = nla.norm(sol.fun)
 
         nit = sol.get('nit', -1)
+        # The df-sane method does not return the status.
+        sol_status = sol.get('status', int(sol.success))
         if status is not None:
             status['time_stats'] = {'solver' : timer.stop()}
             status['err'] = err
             status['n_iter'] = nit
             status['n_fev'] = sol.nfev
             # Zero means converged, as in the other solvers.
-            status['condition'] = 0 if sol.success else (sol.status or 1)
+            status['condition'] = 0 if sol.success else (sol_status or 2)
 
         if conf.report_status:
             output(sol.message)
-            output(f'status: {sol.status}, iter: {nit},'
+            output(f'status: {sol_status}, iter: {nit},'
                    f' nfev: {sol.nfev}, err: {err:.8e}')
             output('solver: %.8f [s]' % timer.total)
 
-- 
2.43.0


From bb91241722dd75d7c4480c69ba0f0819b9069373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 104/144] fix: read labels with commas and colons in read_log()

---
 sfepy/base/log.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 212972e..d43e025 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -1,3 +1,4 @@
+import re
 import time
 import os
 import atexit
@@ -92,10 +93,15 @@ def read_log(filename):
                 for ig in range(n_gr):
                     next(fd)
                     line_info = next(fd)
-                    xlabel, ylabel, yscales = line_info.split(',')
+                    # The labels can contain commas and colons.
+                    match = re.search(
+                        'xlabel: "(.*)", ylabel: "(.*)", yscales: "(.*)"',
+                        line_info,
+                    )
+                    xlabel, ylabel, yscales = match.groups()
 
                     line_names = next(fd)
-                    names = line_names.split(':')[1]
+                    names = line_names.split(':', 1)[1]
                     names = [name.strip().strip('"')
                              for name in names.split(',')]
                     if len(names[0]) == 0:
@@ -105,11 +111,7 @@ def read_log(filename):
                     aux = line_plot_kwargs[19:].strip().strip('"')
                     plot_kwargs = eval(aux + ',') if len(aux) else ({},)
 
-                    info[ig] = (xlabel.split(':')[1].strip().strip('"'),
-                                ylabel.split(':')[1].strip().strip('"'),
-                                yscales.split(':')[1].strip().strip('"'),
-                                names,
-                                plot_kwargs)
+                    info[ig] = (xlabel, ylabel, yscales, names, plot_kwargs)
 
                     name2key.update({name : ik + offset
                                      for ik, name in enumerate(info[ig][3])})
-- 
2.43.0


From 0b036a8eb00614682c01ed1ae4607534d374ebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 105/144] fix: repeated x and vlines values in write_log()

---
 sfepy/base/log.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index d43e025..e085cb4 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -159,11 +159,14 @@ def write_log(output, log, info):
         for ip, name in enumerate(names):
             xs, ys, vlines = log[ip + offset]
 
+            iv = 0
             for ir, x in enumerate(xs):
                 output('{}: {}: {:.16e}'.format(ip + offset, x, ys[ir]))
 
-                if x in vlines:
+                # Both x and vlines values can repeat.
+                while (iv < len(vlines)) and (vlines[iv] == x):
                     output('%d: -----' % (ip + offset))
+                    iv += 1
 
         offset += len(names)
 
-- 
2.43.0


From 79119e61b29cce3eab2d7ab0822e8870df151f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 106/144] fix: write log files also with verbose output
 switched off

---
 sfepy/base/log.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index e085cb4..04a7897 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -2,6 +2,7 @@ import re
 import time
 import os
 import atexit
+from functools import partial
 
 try:
     import multiprocessing as mp
@@ -406,7 +407,9 @@ class Log(Struct):
         self.can_plot = (mpl is not None) and (mp is not None)
 
         if log_filename is not None:
-            self.output = Output('', filename=log_filename)
+            # The log file is to be written regardless of the screen output.
+            self.output = partial(Output('', filename=log_filename),
+                                  verbose=True)
             _write_header(self.output, xlabels, ylabels, yscales, data_names,
                           self.plot_kwargs)
 
-- 
2.43.0


From 6d78b89a514bf85a54d63303c27fc3b8a15d8f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 107/144] fix: describe added groups in log file in
 Log.add_group()

---
 sfepy/base/log.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 04a7897..b231f21 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -460,6 +460,13 @@ class Log(Struct):
             send(['add_axis', ig, names, yscale, xlabel, ylabel,
                   self.plot_kwargs[ig]])
 
+        if self.output is not None:
+            # Describe all the groups again, now with the new one.
+            as_list = lambda adict: [adict[ii] for ii in range(self.n_gr)]
+            _write_header(self.output, as_list(self.xlabels),
+                          as_list(self.ylabels), as_list(self.yscales),
+                          as_list(self.data_names), self.plot_kwargs)
+
     def get_log_name(self):
         return os.path.join(sfepy_config_dir,
                             'plotter_%03d.log' % self.__class__.count)
-- 
2.43.0


From 344d5a881b56f59e8f39fd46c422118507735159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 108/144] fix: log nothing when a Log call is refused

---
 sfepy/base/log.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index b231f21..338f7bb 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -509,6 +509,18 @@ class Log(Struct):
             msg = 'log called with wrong number of arguments! (%d == %d)' % ls
             raise IndexError(msg)
 
+        # Check all the data before logging any of them.
+        values = []
+        for ig, ip, ii, iseq, name in iter_names(self.data_names, igs):
+            aux = args[iseq]
+            if isinstance(aux, nm.ndarray):
+                aux = nm.array(aux, ndmin = 1)
+                if len(aux) == 1:
+                    aux = aux[0]
+                else:
+                    raise ValueError('can log only scalars (%s)' % aux)
+            values.append(aux)
+
         for ig in igs:
             if (x_values is not None) and (x_values[ig] is not None):
                 self.x_values[ig].append(x_values[ig])
@@ -520,13 +532,7 @@ class Log(Struct):
                 self.x_values[ig].append(ii)
 
         for ig, ip, ii, iseq, name in iter_names(self.data_names, igs):
-            aux = args[iseq]
-            if isinstance(aux, nm.ndarray):
-                aux = nm.array(aux, ndmin = 1)
-                if len(aux) == 1:
-                    aux = aux[0]
-                else:
-                    raise ValueError('can log only scalars (%s)' % aux)
+            aux = values[iseq]
             self.data[ii].append(aux)
 
             if self.output:
-- 
2.43.0


From 6e8d398df0e160a799cf161346e4739eaf74b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:10 +0000
Subject: [PATCH 109/144] fix: curves without data in write_log() and
 plot_log()

---
 sfepy/base/log.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/base/log.py b/sfepy/base/log.py
index 338f7bb..c79c5d9 100644
--- a/sfepy/base/log.py
+++ b/sfepy/base/log.py
@@ -158,7 +158,7 @@ def write_log(output, log, info):
     for ig, (xlabel, ylabel, yscale, names, plot_kwargs) \
         in ordered_iteritems(info):
         for ip, name in enumerate(names):
-            xs, ys, vlines = log[ip + offset]
+            xs, ys, vlines = log.get(ip + offset, ([], [], []))
 
             iv = 0
             for ir, x in enumerate(xs):
@@ -269,7 +269,7 @@ def plot_log(axs, log, info, xticks=None, yticks=None, xnbins=None, ynbins=None,
             xti, yti = xticks[isub], yticks[isub]
             ax.set_yscale(yscale)
             for ip, name in enumerate(names):
-                xs, ys, vlines = log[ip + offset]
+                xs, ys, vlines = log.get(ip + offset, ([], [], []))
                 draw_data(ax, xs, ys, name, plot_kwargs[ip])
 
                 for x in vlines:
@@ -282,7 +282,7 @@ def plot_log(axs, log, info, xticks=None, yticks=None, xnbins=None, ynbins=None,
             ax.set_xscale(yscale)
 
             for ip, name in enumerate(names):
-                xs, ys, vlines = log[ip + offset]
+                xs, ys, vlines = log.get(ip + offset, ([], [], []))
                 draw_data(ax, xs, ys, name, plot_kwargs[ip], swap_axes=True)
 
                 for x in vlines:
-- 
2.43.0


From c6900898685c24fa4be6579904bfb289330a9adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:44 +0000
Subject: [PATCH 110/144] fix: restore types of NumPy scalars, array
 subclasses, unicode arrays and strings with trailing nulls in write_to_hdf5()

---
 sfepy/base/ioutils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 882cf76..c1edd5f 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -735,10 +735,15 @@ def write_to_hdf5(fd, group, name, data, cache=None,
         if isinstance(data, tuple):
             return save_list('tuple', data)
 
-        if isinstance(data, (int, float, complex, nm.ndarray)):
+        # NumPy scalars (can be subclasses of float etc.), array subclasses
+        # (e.g. masked arrays), unicode arrays etc. would lose their type or
+        # data -> those are pickled.
+        if ((type(data) in (int, float, complex))
+            or ((type(data) is nm.ndarray) and (data.dtype.kind in 'biufcS'))):
             return save_value('raw', data)
 
-        if isinstance(data, str):
+        # Trailing null characters are stripped by NumPy.
+        if isinstance(data, str) and not data.endswith('\0'):
             return save_value('str', nm.array(enc(data)))
 
         if isinstance(data, (sp.csr_array, sp.csc_array,
-- 
2.43.0


From f25fd31232aa77bd0f23304b49318ae024b46127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:44 +0000
Subject: [PATCH 111/144] fix: unpack markers in all containers in
 write_to_hdf5()

---
 sfepy/base/ioutils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index c1edd5f..73f7f57 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -682,10 +682,10 @@ def write_to_hdf5(fd, group, name, data, cache=None,
                 warnings.simplefilter("ignore")
                 for i, d in enumerate(data):
                     _write_to_hdf5(data_group, str(i), d)
-            if unpack_markers:
+            if unpack_markers and isinstance(data, list):
                 for i,d in enumerate(data):
-                    if isinstance(d, DataMarker):
-                        data[i] = d.data
+                    if isinstance(d, HDF5BaseData):
+                        data[i] = d.unpack_data()
             return dgroup
 
         def save_by_function(type, fn=None, data_arg=None, cached=False):
@@ -761,7 +761,8 @@ def write_to_hdf5(fd, group, name, data, cache=None,
                                     data_arg=data, cached=True)
 
         if isinstance(data, Uncached):
-            return write_to_hdf5(fd, group, name, data.data)
+            return write_to_hdf5(fd, group, name, data.data,
+                                 unpack_markers=unpack_markers)
 
         if isinstance(data, Cached):
             return save_by_function(None, None, data.data, cached=True)
@@ -770,7 +771,7 @@ def write_to_hdf5(fd, group, name, data, cache=None,
             return data.write(fd, group, name, cache)
 
         if isinstance(data, Struct):
-            return save_dict('Struct', data.to_dict())
+            return save_dict('Struct', data.__dict__)
 
         return save_value('pickle', nm.array(pickle.dumps(data)))
 
-- 
2.43.0


From 8ba32423b3bb5b7868ad2c2cd032ac0f2fbaecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:44 +0000
Subject: [PATCH 112/144] fix: do not mix up objects with reused ids in
 write_to_hdf5() cache

---
 sfepy/base/ioutils.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 73f7f57..cd57e02 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -440,6 +440,14 @@ def read_sparse_matrix_from_hdf5(fd, group, output_format=None):
 def path_of_hdf5_group(group):
     return group._v_pathname
 
+def add_to_hdf5_cache(cache, obj, group):
+    """
+    Remember the group of a stored object. A reference to the object is kept in
+    the cache, so that its id cannot be reused for another object.
+    """
+    cache[id(obj)] = path_of_hdf5_group(group)
+    cache.setdefault('objects', []).append(obj)
+
 class HDF5BaseData:
     """
     When storing values to HDF5, special classes can be used that wrap the
@@ -601,7 +609,7 @@ class DataSoftLink(HDF5Data):
                     if cache_id in cache:
                         keys = (keys, cache[cache_id])
                     else:
-                        cache[cache_id] = path_of_hdf5_group(group)
+                        add_to_hdf5_cache(cache, self.cache, group)
 
             fd.create_array(group, 'cache', nm.array(keys))
         return fd.create_soft_link(group, "data", self.destination)
@@ -701,11 +709,11 @@ def write_to_hdf5(fd, group, name, data, cache=None,
                 if type is None:
                     #store the argument into the group
                     out = _write_to_hdf5(group, name, data_arg)
-                    cache[id(data_arg)] = path_of_hdf5_group(out)
+                    add_to_hdf5_cache(cache, data_arg, out)
                     return out
 
             dgroup = fd.create_group(group, name)
-            cache[id(data)] = path_of_hdf5_group(dgroup)
+            add_to_hdf5_cache(cache, data, dgroup)
             fd.create_array(dgroup, 'type', nm.array(type))
             if fn is None:
                 fd.create_array(dgroup, 'data', data)
-- 
2.43.0


From 3eb667695972fb2737f2bb32d7d9954b02eebd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:48 +0000
Subject: [PATCH 113/144] fix: convert matrices stored in another format in
 read_sparse_matrix_hdf5()

---
 sfepy/base/ioutils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index cd57e02..7f5b13f 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -411,28 +411,27 @@ def read_sparse_matrix_from_hdf5(fd, group, output_format=None):
     data = group.data
 
     constructors = {'csr' : sp.csr_array, 'csc' : sp.csc_array}
+    if (output_format is not None) and (output_format not in constructors):
+        raise ValueError('unknown output format! (%s)' % output_format)
 
     format = dec(info.format.read())
     dtype = dec(info.dtype.read())
 
-    if output_format is None:
-        constructor = constructors[format]
-    else:
-        constructor = constructors[output_format]
-
     if format in ['csc', 'csr']:
+        constructor = constructors[format]
         mtx = constructor((data.data.read(),
                            data.indices.read(), data.indptr.read()),
                           shape=info.shape.read(), dtype=dtype)
     elif format == 'coo':
-        mtx = constructor((data.data.read(),
+        mtx = sp.coo_array((data.data.read(),
                            nm.c_[data.rows.read(), data.cols.read()].T),
                           shape=info.shape.read(), dtype=dtype)
     else:
         print(format)
         raise ValueError
 
-    if output_format in ['csc', 'csr']:
+    if output_format is not None:
+        mtx = mtx.asformat(output_format)
         mtx.sort_indices()
 
     return mtx
-- 
2.43.0


From 8419bc0c4690ef4972e5d0a559754268c5eb4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:48 +0000
Subject: [PATCH 114/144] fix: vertex sets of IGDomain written to HDF5 files

---
 sfepy/discrete/iga/domain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/iga/domain.py b/sfepy/discrete/iga/domain.py
index 25a89b9..fe8577a 100644
--- a/sfepy/discrete/iga/domain.py
+++ b/sfepy/discrete/iga/domain.py
@@ -166,8 +166,12 @@ class IGDomain(Domain):
         bweights = self.bmesh.weights
         bconn = self.bmesh.conn
 
+        # The vertex sets refer to the corners of the Bezier mesh.
+        itc = nm.unique(iga.get_bezier_topology(bconn, degrees))
+        regions = {key : itc[val] for key, val in self.vertex_set_bcs.items()}
+
         return (knots, degrees, cps, weights, cs, conn,
-                bcps, bweights, bconn, self.vertex_set_bcs)
+                bcps, bweights, bconn, regions)
 
     @staticmethod
     def from_data(knots, degrees, cps, weights, cs, conn,
-- 
2.43.0


From 43d31258dfcaf91d8a79d0c29248a3ddf7eed6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 115/144] fix: unpack all markers after storing the data in
 write_to_hdf5()

---
 sfepy/base/ioutils.py | 53 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/sfepy/base/ioutils.py b/sfepy/base/ioutils.py
index 7f5b13f..72ad4b9 100644
--- a/sfepy/base/ioutils.py
+++ b/sfepy/base/ioutils.py
@@ -613,6 +613,42 @@ class DataSoftLink(HDF5Data):
             fd.create_array(group, 'cache', nm.array(keys))
         return fd.create_soft_link(group, "data", self.destination)
 
+def _unpack_markers(data, done):
+    """
+    Replace the markers in all the containers in `data` by the marked data.
+    """
+    if isinstance(data, DataMarker):
+        _unpack_markers(data.data, done)
+        return
+
+    if id(data) in done:
+        return
+
+    if isinstance(data, Struct):
+        data = data.__dict__
+
+    if isinstance(data, dict):
+        items = list(data.items())
+
+    elif isinstance(data, (list, tuple)):
+        items = list(enumerate(data))
+
+    else:
+        return
+
+    done.add(id(data))
+    for key, val in items:
+        _unpack_markers(val, done)
+        new = val
+        while isinstance(new, HDF5BaseData):
+            val = new
+            new = val.unpack_data()
+            if new is val:
+                break
+
+        if (new is not data[key]) and not isinstance(data, tuple):
+            data[key] = new
+
 def write_to_hdf5(fd, group, name, data, cache=None,
                   unpack_markers=False):
     """
@@ -653,6 +689,12 @@ def write_to_hdf5(fd, group, name, data, cache=None,
     from sfepy.discrete.fem.mesh import Mesh
     from sfepy.discrete.fem.meshio import HDF5MeshIO
 
+    if unpack_markers:
+        # The markers need to be there until all the data are stored.
+        dgroup = write_to_hdf5(fd, group, name, data, cache=cache)
+        _unpack_markers(data, set())
+        return dgroup
+
     if cache is None: cache = {}
 
     def _write_to_hdf5(group, name, data):
@@ -671,10 +713,6 @@ def write_to_hdf5(fd, group, name, data, cache=None,
                 warnings.simplefilter("ignore")
                 for d in data:
                     _write_to_hdf5(data_group, d, data[d])
-            if unpack_markers:
-                for d in data:
-                    if isinstance(data[d], HDF5BaseData):
-                        data[d] = data[d].unpack_data()
             return dgroup
 
         def save_list(type, data):
@@ -689,10 +727,6 @@ def write_to_hdf5(fd, group, name, data, cache=None,
                 warnings.simplefilter("ignore")
                 for i, d in enumerate(data):
                     _write_to_hdf5(data_group, str(i), d)
-            if unpack_markers and isinstance(data, list):
-                for i,d in enumerate(data):
-                    if isinstance(d, HDF5BaseData):
-                        data[i] = d.unpack_data()
             return dgroup
 
         def save_by_function(type, fn=None, data_arg=None, cached=False):
@@ -768,8 +802,7 @@ def write_to_hdf5(fd, group, name, data, cache=None,
                                     data_arg=data, cached=True)
 
         if isinstance(data, Uncached):
-            return write_to_hdf5(fd, group, name, data.data,
-                                 unpack_markers=unpack_markers)
+            return write_to_hdf5(fd, group, name, data.data)
 
         if isinstance(data, Cached):
             return save_by_function(None, None, data.data, cached=True)
-- 
2.43.0


From bea8655347b4845f2a93aefe2d3f2133c86b2285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 116/144] fix: complex numbers in option strings

---
 sfepy/base/parse_conf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/base/parse_conf.py b/sfepy/base/parse_conf.py
index d18e1fe..c503dbe 100644
--- a/sfepy/base/parse_conf.py
+++ b/sfepy/base/parse_conf.py
@@ -45,7 +45,7 @@ cvt_real = lambda toks: float(toks[0])
 real.setParseAction(cvt_real)
 
 cmplx = real + CaselessLiteral('j')
-cvt_cmplx = lambda toks: complex(toks[0])
+cvt_cmplx = lambda toks: complex(0.0, toks[0])
 cmplx.setParseAction(cvt_cmplx)
 
 array_index = integer + Optional(colon + integer +
-- 
2.43.0


From 6f6d3ef69af235a1ad7e1f64f6225aa3649411a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 117/144] fix: match whole keywords in ProblemConf validation
 and input gathering

---
 sfepy/base/conf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/base/conf.py b/sfepy/base/conf.py
index a32f5c9..7eb281b 100644
--- a/sfepy/base/conf.py
+++ b/sfepy/base/conf.py
@@ -478,7 +478,7 @@ class ProblemConf(Struct):
         left_over = keys[:]
         if but_nots is not None:
             for item in but_nots:
-                match = re.compile('^' + item + '$').match
+                match = re.compile('(?:' + item + ')$').match
                 for key in keys:
                     if match(key):
                         left_over.remove(key)
@@ -487,7 +487,7 @@ class ProblemConf(Struct):
         if items is not None:
             for item in items:
                 found = False
-                match = re.compile('^' + item + '$').match
+                match = re.compile('(?:' + item + ')$').match
                 for key in keys:
                     if match(key):
                         found = True
@@ -517,7 +517,7 @@ class ProblemConf(Struct):
 
         ##
         # Unordered inputs.
-        tr_list = ['([a-zA-Z0-9]+)_[0-9]+']
+        tr_list = ['([a-zA-Z0-9]+)_[0-9]+$']
         # Keywords not in 'required', but needed even empty (e.g. for
         # running tests).
         for key in transforms.keys():
-- 
2.43.0


From a49f4e8c4d4e2e8db19928ef9b1e1523ab39b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 118/144] fix: override of tuples in update_dict_recursively()

---
 sfepy/base/base.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sfepy/base/base.py b/sfepy/base/base.py
index 5ac6d21..2bf3b6a 100644
--- a/sfepy/base/base.py
+++ b/sfepy/base/base.py
@@ -1166,7 +1166,8 @@ def update_dict_recursively(dst, src, tuples_too=False,
     src : dict
         The source dictionary.
     tuples_too : bool
-        If True, recurse also into dictionaries that are members of tuples.
+        If True, recurse also into dictionaries that are members of tuples. The
+        other members are replaced.
     overwrite_by_none : bool
         If False, do not overwrite destination dictionary values by None.
 
@@ -1175,23 +1176,25 @@ def update_dict_recursively(dst, src, tuples_too=False,
     dst : dict
         The destination dictionary.
     """
-    def tuplezip(a):
-        if isinstance(a[0], dict) and isinstance(a[1], dict):
-            return update_dict_recursively(a[0], a[1], True)
-        return a[1]
+    def update_member(ii, val, old):
+        if (ii < len(old)) and isinstance(old[ii], dict) \
+               and isinstance(val, dict):
+            return update_dict_recursively(old[ii], val, True,
+                                           overwrite_by_none)
+        return val
 
     for key in src:
         if key in dst:
             if isinstance(src[key], dict) and isinstance(dst[key], dict):
                 dst[key] = update_dict_recursively(dst[key],
-                                                   src[key], tuples_too)
+                                                   src[key], tuples_too,
+                                                   overwrite_by_none)
                 continue
 
             if tuples_too and isinstance(dst[key], tuple) \
                    and isinstance(src[key], tuple):
-                out = map(tuplezip, zip(src[key], dst[key]))
-                out = tuple(out)
-                dst[key] = out[:len(dst[key])]
+                dst[key] = tuple(update_member(ii, val, dst[key])
+                                 for ii, val in enumerate(src[key]))
                 continue
 
         if overwrite_by_none or not src[key] is None:
-- 
2.43.0


From 0174a723052254d6a65aa6b2e1022ee6a1ab702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 119/144] fix: do not modify user's dictionaries in ProblemConf

---
 sfepy/base/conf.py | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/sfepy/base/conf.py b/sfepy/base/conf.py
index 7eb281b..2684102 100644
--- a/sfepy/base/conf.py
+++ b/sfepy/base/conf.py
@@ -317,6 +317,38 @@ def dict_from_options(options):
 
     return override
 
+def _copy_containers(val, done=None):
+    """
+    Copy `val` with the nested dictionaries, also those in tuples and lists,
+    the other values are kept.
+    """
+    if done is None: done = {}
+
+    if type(val) is dict:
+        if id(val) in done:
+            return done[id(val)]
+
+        out = done[id(val)] = {}
+        for key, item in val.items():
+            out[key] = (_copy_containers(item, done)
+                        if key != '__builtins__' else item)
+
+    elif type(val) in (tuple, list):
+        if id(val) in done:
+            return done[id(val)]
+
+        if type(val) is list:
+            out = done[id(val)] = []
+            out.extend(_copy_containers(item, done) for item in val)
+
+        else:
+            out = tuple(_copy_containers(item, done) for item in val)
+
+    else:
+        out = val
+
+    return out
+
 ##
 # 27.10.2005, c
 class ProblemConf(Struct):
@@ -416,10 +448,14 @@ class ProblemConf(Struct):
     def __init__(self, define_dict, funmod=None, filename=None,
                  required=None, other=None, verbose=True, override=None,
                  setup=True, load_modules=[]):
+        # Do not modify the dictionaries given by the user.
+        define_dict = _copy_containers(define_dict)
         if override:
             if isinstance(override, Struct):
                 override = override.__dict__
-            define_dict = update_dict_recursively(define_dict, override, True)
+            define_dict = update_dict_recursively(define_dict,
+                                                  _copy_containers(override),
+                                                  True)
 
         self.__dict__.update(define_dict)
         self.verbose = verbose
-- 
2.43.0


From e03d0b6ba3365a867764b87e23d462be3d4456f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 120/144] fix: do not store user data of equations in
 Problem.conf

---
 sfepy/discrete/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/problem.py b/sfepy/discrete/problem.py
index 16f2057..d107a32 100644
--- a/sfepy/discrete/problem.py
+++ b/sfepy/discrete/problem.py
@@ -550,7 +550,7 @@ class Problem(Struct):
 
         self.integrals = self.get_integrals()
 
-        default_user = vars(self.conf)
+        default_user = dict(vars(self.conf))
         if user is not None:
             default_user.update(user)
         user = default_user
-- 
2.43.0


From 4558d0f46e36db44911ae485e3c58bd0245e1303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:14 +0000
Subject: [PATCH 121/144] fix: required solver parameters given as keyword
 arguments

---
 sfepy/solvers/solvers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/solvers.py b/sfepy/solvers/solvers.py
index 850736e..7664433 100644
--- a/sfepy/solvers/solvers.py
+++ b/sfepy/solvers/solvers.py
@@ -6,8 +6,10 @@ from sfepy.base.base import Struct, output, structify
 
 def make_get_conf(conf, kwargs):
     def _get_conf_item(name, default=None, msg_if_none=None):
-        return kwargs.get(name, conf.get(name, default=default,
-                                         msg_if_none=msg_if_none))
+        if name in kwargs:
+            return kwargs[name]
+
+        return conf.get(name, default=default, msg_if_none=msg_if_none)
 
     return _get_conf_item
 
-- 
2.43.0


From 9a27a74da90ca14aa538d6941b4aa634f6559531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:04 +0000
Subject: [PATCH 122/144] fix: match facet vertices of mirror regions by
 position, not by numbering

---
 sfepy/discrete/common/region.py  | 11 +++++++-
 sfepy/discrete/fem/fe_surface.py | 45 ++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index 739e2df..8fb6101 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -248,7 +248,8 @@ class Region(Struct):
                         tdim=tdim, kind_tdim=None,
                         entities=[None] * (tdim + 1),
                         kind=None, parent=parent, shape=None,
-                        mirror_regions={}, mirror_maps={}, is_empty=False,
+                        mirror_regions={}, mirror_maps={},
+                        mirror_vmaps={}, is_empty=False,
                         cmesh=domain.cmesh_tdim[tdim])
         self.set_kind(kind)
 
@@ -720,6 +721,11 @@ class Region(Struct):
             mirror_map_i[fmap1] = fmap2
             mirror_map = nm.zeros_like(fmap1)
             mirror_map[fmap2] = fmap1
+
+            vmap_i = nm.full(self.n_v_max, -1, dtype=nm.int32)
+            vmap_i[self.vertices[vmap1]] = mreg.vertices[vmap2]
+            vmap = nm.full(self.n_v_max, -1, dtype=nm.int32)
+            vmap[mreg.vertices[vmap2]] = self.vertices[vmap1]
         else:
             for reg in regions:
                 mirror_parent = regions.find(reg.parent)
@@ -729,14 +735,17 @@ class Region(Struct):
                     and nm.all(self.vertices == reg.vertices)):
                     mreg = reg
                     mirror_map = mirror_map_i = None
+                    vmap = vmap_i = None
                     break
             else:
                 raise ValueError('cannot find mirror region! (%s)' % self.name)
 
         self.mirror_regions[mreg.name] = mreg
         self.mirror_maps[mreg.name] = mirror_map
+        self.mirror_vmaps[mreg.name] = vmap
         mreg.mirror_regions[self.name] = self
         mreg.mirror_maps[self.name] = mirror_map_i
+        mreg.mirror_vmaps[self.name] = vmap_i
 
         if ret_name:
             return mreg.name
diff --git a/sfepy/discrete/fem/fe_surface.py b/sfepy/discrete/fem/fe_surface.py
index 0b66423..5ddc488 100644
--- a/sfepy/discrete/fem/fe_surface.py
+++ b/sfepy/discrete/fem/fe_surface.py
@@ -94,41 +94,48 @@ class FESurface(Struct):
         Setup mirror surface connectivity required to integrate over a
         mirror region.
 
-        1. Get orientation of the faces:
-           a) for own elements -> ooris
-           b) for mirror elements -> moris
+        1. Get vertices of the faces of own and mirror elements, the mirror
+           vertices are mapped to the own ones.
 
-        2. orientation -> permutation.
+        2. matching vertices -> permutation.
         """
-        def get_omap(reg, ori_map):
+        def get_vertices(reg):
             if reg.tdim == (reg.dim - 1):
-                cells = reg.get_cells()
-                conn = reg.domain.get_conn(tdim=reg.tdim)[cells, :]
-                return nm.argsort(conn)
+                return reg.domain.get_conn(tdim=reg.tdim)[reg.get_cells(), :]
+
             else:
-                conn = reg.cmesh.get_conn_as_graph(reg.dim, reg.dim - 1)
-                oris = reg.cmesh.facet_oris
-                fis = reg.get_facet_indices()
-                return ori_map[oris[conn.indptr[fis[:, 0]] + fis[:, 1]]]
+                return FESurface.from_region('aux', reg).econn
 
         if mirror_name in self.meconn:
             return
 
         mregion = region.get_mirror_region(mirror_name)
-        mmap = get_omap(mregion, self.ori_map)
-        omap = get_omap(region, self.ori_map)
+        mverts = get_vertices(mregion)
+        verts = get_vertices(region)
+        vmap = region.mirror_vmaps.get(mirror_name)
+        if vmap is not None:
+            mverts = vmap[mverts]
 
         econn = self.econn
         if mirror_name in region.mirror_maps\
             and region.mirror_maps[mirror_name] is not None:
             mirror_map = region.mirror_maps[mirror_name]
-            omap = omap[mirror_map]
+            verts = verts[mirror_map]
             econn = econn[mirror_map]
 
-        n_el, n_ep = econn.shape
-        ii = nm.repeat(nm.arange(n_el)[:, None], n_ep, 1)
-        meconn = nm.empty_like(econn)
-        meconn[ii, mmap] = econn[ii, omap]
+        same = mverts[:, :, None] == verts[:, None, :]
+        if not same.any(axis=2).all():
+            raise ValueError('cannot match facet vertices of mirror regions!'
+                             ' (%s, %s)' % (region.name, mirror_name))
+
+        n_v = verts.shape[1]
+        # A single DOF inside of a facet does not depend on its orientation.
+        if econn.shape[1] > (n_v + (n_v == 2)):
+            raise ValueError('unsupported approximation order for mirror'
+                             ' regions! (%s, %s)' % (region.name, mirror_name))
+
+        meconn = econn.copy()
+        meconn[:, :n_v] = nm.take_along_axis(econn, same.argmax(axis=2), 1)
 
         nodes = nm.unique(meconn)
         remap = prepare_remap(nodes, nodes.max() + 1)
-- 
2.43.0


From 4bc73be8bd3388e13fd9a4b4f806a21810474a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:04 +0000
Subject: [PATCH 123/144] fix: reproducible ordering of variables without given
 order

---
 sfepy/discrete/equations.py | 4 ++--
 sfepy/discrete/variables.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 7cdfb01..858e8e3 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -281,8 +281,8 @@ class Equations(Container):
         for eq in self:
             variables.extend(eq.collect_variables())
 
-        # Make the list items unique.
-        variables = list(set(variables))
+        # Make the list items unique, keep the order of appearance.
+        variables = list(dict.fromkeys(variables))
 
         return variables
 
diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 76cd74e..2713eb7 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -292,7 +292,8 @@ class Variables(Container):
             aux = [self[name]._order for name in self.state]
             orders = [(self[name]._order, name) for name in self.state]
         else:
-            orders = [ii for ii in enumerate(self.state)]
+            orders = [ii for ii in enumerate(name for name in self.names
+                                             if name in self.state)]
 
         if len(orders):
             self.ordered_state = [name for order, name in sorted(orders)]
-- 
2.43.0


From 1987c91f4131624516f8b9f1a5eb0b6e430d2ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:50 +0000
Subject: [PATCH 124/144] fix: try all shifts in match_plane_by_dir(), do not
 modify direction

---
 sfepy/discrete/fem/periodic.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index 5ad4c5b..6d8f2ee 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -75,9 +75,8 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
     if key in periodic_cache and get_saved:
         return periodic_cache[key]
     else:
-        aux = coors2.copy()
         if direction is not None:
-            direction = nm.asarray(direction, dtype=nm.float64).reshape((3, 1))
+            direction = nm.array(direction, dtype=nm.float64).reshape((3, 1))
             direction = direction[:coors1.shape[1]]
             direction /= nm.linalg.norm(direction)
             x0p = coors1[0] - coors2
@@ -89,9 +88,16 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
                 print(dist)
                 raise ValueError('cannot match nodes!')
 
-            aux += coors1[0] - coors2[idx[0]]
+            # Several points can have the same projection.
+            shifts = coors1[0] - coors2[idx]
 
-        i1, i2 = find_map(coors1, aux, join=False)
+        else:
+            shifts = nm.zeros((1, coors1.shape[1]))
+
+        for shift in shifts:
+            i1, i2 = find_map(coors1, coors2 + shift, join=False)
+            if i1.shape[0] == coors1.shape[0]:
+                break
 
         if i1.shape[0] != coors1.shape[0]:
             print(direction)
-- 
2.43.0


From ae1f2cdff4f04380e0e1abdb4ceb5ec7900db572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:50 +0000
Subject: [PATCH 125/144] fix: match facets of DG periodic boundary conditions

---
 sfepy/discrete/common/dof_info.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index a98c873..6aee885 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -406,9 +406,38 @@ class EquationMap(Struct):
                 self.n_dg_ebc += 1
             elif ntype == "DGEPBC":
 
-                # ensure matching boundaries?
                 master_bc2bfi = field.get_bc_facet_idx(region)
                 slave_bc2bfi = field.get_bc_facet_idx(bc.regions[1])
+                if len(master_bc2bfi) != len(slave_bc2bfi):
+                    msg = 'DG EPBC facet list lengths do not match! (%d, %d)'
+                    raise ValueError(msg % (len(master_bc2bfi),
+                                            len(slave_bc2bfi)))
+
+                if region.tdim > 1:
+                    # Match facets by their centroids.
+                    coors = field.domain.cmesh.get_centroids(region.tdim - 1)
+                    mcoor = coors[region.facets]
+                    scoor = coors[bc.regions[1].facets]
+
+                    # The match function may be left undefined.
+                    try:
+                        fun = get_condition_value(bc.match, functions,
+                                                  'DGEPBC', bc.name)
+
+                    except ValueError:
+                        fun = None
+
+                    if isinstance(fun, Function):
+                        i1, i2 = fun(mcoor, scoor)
+
+                    else: # Match translated regions.
+                        from sfepy.discrete.fem.periodic import match_coors
+
+                        shift = nm.mean(scoor, 0) - nm.mean(mcoor, 0)
+                        i1, i2 = match_coors(mcoor, scoor - shift)
+
+                    master_bc2bfi = master_bc2bfi[i1]
+                    slave_bc2bfi = slave_bc2bfi[i2]
 
                 self.dg_epbc.append((master_bc2bfi, slave_bc2bfi))
                 self.n_dg_epbc += 1
-- 
2.43.0


From 3bdac0cacbaa12e70fe980ee6cbb404fd80a6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:57 +0000
Subject: [PATCH 126/144] fix: repeated entity numbers in region selectors

---
 sfepy/discrete/common/domain.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index a2917ae..6aaff2f 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -129,12 +129,12 @@ def region_leaf(domain, regions, rdef, functions, tdim):
             region.vertices = aux.vertices[0:1]
 
         elif token == 'E_VI':
-            region.vertices = nm.array([int(ii) for ii in details[1:]],
-                                       dtype=nm.uint32)
+            region.vertices = nm.unique(nm.array([int(ii) for ii in details[1:]],
+                                                 dtype=nm.uint32))
 
         elif token == 'E_CI':
-            region.cells = nm.array([int(ii) for ii in details[1:]],
-                                    dtype=nm.uint32)
+            region.cells = nm.unique(nm.array([int(ii) for ii in details[1:]],
+                                              dtype=nm.uint32))
 
         else:
             output('token "%s" unkown - check regions!' % token)
-- 
2.43.0


From 48d9693ba6a8e7c9c110488dbd62e97ea4a7cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:57 +0000
Subject: [PATCH 127/144] fix: coordinates of vertex nodes of discontinuous
 fields

---
 sfepy/discrete/fem/fields_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 16cde53..fb28003 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -475,8 +475,10 @@ class FEField(Field):
             else:
                 gps = self.geom_poly_space
                 ps = self.poly_space
+                # Fields without vertex DOFs (discontinuous) need all the nodes.
                 eval_nodal_coors(self.coors, coors, self.region,
-                                 ps, gps, self.econn)
+                                 ps, gps, self.econn,
+                                 only_extra=self.n_vertex_dof > 0)
 
     def setup_coors(self):
         """
-- 
2.43.0


From 0778b2d324d3e1a82e28a5c0df9b51d09c658fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 128/144] fix: mappings of parts of regions of fields with
 cell-dependent basis

---
 sfepy/discrete/fem/fields_base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index fb28003..93c82cb 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1249,20 +1249,28 @@ class FEField(Field):
         coors = domain.get_mesh_coors(actual=True)
 
         iels = region.get_cells(true_cells_only=(region.kind == 'cell'))
-        transform = (self.basis_transform[iels] if self.basis_transform
-                     is not None else None)
+        transform, ori = self.basis_transform, self.ori
+        if (region.kind == 'cell') and ((transform is not None)
+                                        or (ori is not None)):
+            # Field-local cell indices.
+            ii = self.region.get_cell_indices(iels)
+            transform = transform[ii] if transform is not None else None
+            ori = ori[ii] if ori is not None else None
+
+        else:
+            ii = None
 
         geo_ps = self.geom_poly_space
         ps = self.poly_space
 
         if region.kind == 'cell':
             qp = self.get_qp('v', integral)
-            bf = self.eval_basis('v', 0, integral, iels=iels)
+            bf = self.eval_basis('v', 0, integral, iels=ii)
 
             dconn = domain.get_conn(tdim=region.tdim, cells=iels)
             mapping = FEMapping(coors, dconn, poly_space=geo_ps)
             out = mapping.get_mapping(qp.vals, qp.weights, bf, poly_space=ps,
-                                      ori=self.ori, transform=transform)
+                                      ori=ori, transform=transform)
 
         elif region.kind == 'facet':
             assert_(self.approx_order > 0)
-- 
2.43.0


From 583d4211e79e4e151688579df15bcbc76239ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:41 +0000
Subject: [PATCH 129/144] fix: set DOFs of fields with several components and
 hierarchical basis

---
 sfepy/discrete/fem/fields_hierarchic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/fields_hierarchic.py b/sfepy/discrete/fem/fields_hierarchic.py
index 1998d64..56f10f5 100644
--- a/sfepy/discrete/fem/fields_hierarchic.py
+++ b/sfepy/discrete/fem/fields_hierarchic.py
@@ -220,7 +220,7 @@ class H1HierarchicVolumeField(H1Mixin, FEField):
             raise ValueError('unknown function/value type! (%s)' % type(fun))
 
         nods, indx = nm.unique(nods, return_index=True)
-        ii = (nm.tile(dpn * indx, dpn)
+        ii = (nm.repeat(dpn * indx, dpn)
               + nm.tile(nm.arange(dpn, dtype=nm.int32), indx.shape[0]))
         vals = vals[ii]
 
-- 
2.43.0


From 9a80b0b9b8b67a0af21b4390f8daa07dc58396f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:24 +0000
Subject: [PATCH 130/144] fix: order of nodes of facets of higher order 3D
 cells

---
 sfepy/discrete/fem/fields_base.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 93c82cb..02ffa1b 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -443,6 +443,9 @@ class FEField(Field):
                 efs = efs[:, nm.newaxis]
             self.efaces = nm.hstack((self.efaces, efs))
 
+        if (gel.dim == 3) and (self.ori is None):
+            self._align_efaces()
+
         if gel.dim == 3:
             self.eedges = gel.edges.copy()
             efs = node_desc.edge
@@ -453,6 +456,27 @@ class FEField(Field):
                     efs = efs[:, nm.newaxis]
                 self.eedges = nm.hstack((self.eedges, efs))
 
+    def _align_efaces(self):
+        """
+        Make the positions of the extended facet nodes w.r.t. the facet
+        vertices the same as in the first facet, whose basis functions are used
+        in all facets, see :func:`FEField.create_mapping()`.
+        """
+        n_fp = self.gel.get_surface_entities().shape[1]
+        if self.efaces.shape[1] == n_fp:
+            return
+
+        def get_facet_coors(eface):
+            coors = self.poly_space.node_coors[eface]
+            axes = coors[[1, n_fp - 1]] - coors[0]
+            return nm.linalg.lstsq(axes.T, (coors - coors[0]).T, rcond=None)[0].T
+
+        coors0 = get_facet_coors(self.efaces[0])
+        for ii, eface in enumerate(self.efaces):
+            coors = get_facet_coors(eface)
+            dist = nm.abs(coors0[:, None] - coors[None]).max(-1)
+            self.efaces[ii] = eface[dist.argmin(axis=1)]
+
     def set_coors(self, coors, extra_dofs=False):
         """
         Set coordinates of field nodes.
-- 
2.43.0


From bae0202b4088e2c2957bcb9caeac085d058e5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:02 +0000
Subject: [PATCH 131/144] fix: matrix graph for small chunk sizes and empty
 regions

---
 sfepy/discrete/equations.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 858e8e3..a23ddb0 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -114,13 +114,11 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
         # N - k C >= 0.5 C, k = N // Cmax, compute C.
         n_cell = srdc.shape[0]
-        cs = int(n_cell / (n_cell // chunk_size + 0.5))
-        for ichunk, (_rdc, _cdc) in enumerate(chunk_arrays((srdc, scdc), cs)):
-            if ichunk == 0:
-                block = create_dof_graph(_rdc, _cdc, shape, active_only)
-
-            else:
-                block += create_dof_graph(_rdc, _cdc, shape, active_only)
+        cs = max(1, int(n_cell / (n_cell // chunk_size + 0.5)))
+        # No cells in empty regions.
+        block = create_dof_graph(srdc[:0], scdc[:0], shape, active_only)
+        for _rdc, _cdc in chunk_arrays((srdc, scdc), cs):
+            block += create_dof_graph(_rdc, _cdc, shape, active_only)
 
         if isinstance(blocks[ir][ic], int):
             blocks[ir][ic] = block
-- 
2.43.0


From 656d9fa4dbe12a973a33976be917c39f3cb68d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:02 +0000
Subject: [PATCH 132/144] fix: evaluation by terms with several terms of the
 same name

---
 sfepy/discrete/equations.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index a23ddb0..206935b 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -856,12 +856,13 @@ class Equations(Container):
             get_indx = self.variables.get_indx
             for eq in self:
                 for it, term in enumerate(eq.terms):
+                    # Several terms of the same name are possible.
                     if select_term:
-                        _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                        _select_term = (lambda x: (x is term)
+                                        and select_term(x))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
@@ -952,12 +953,13 @@ class Equations(Container):
             get_indx = self.variables.get_indx
             for eq in self:
                 for it, term in enumerate(eq.terms):
+                    # Several terms of the same name are possible.
                     if select_term:
-                        _select_term = (lambda x: select_term(x)
-                                        and (x.name == term.name))
+                        _select_term = (lambda x: (x is term)
+                                        and select_term(x))
 
                     else:
-                        _select_term = lambda x: x.name == term.name
+                        _select_term = lambda x: x is term
 
                     ir = get_indx(term.get_virtual_name(),
                                   reduced=True, allow_dual=True)
-- 
2.43.0


From cfe85bc5d3878542bb7afe5b4a7dda4f0a1970b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:10 +0000
Subject: [PATCH 133/144] fix: matrix graph with variables with all DOFs
 prescribed

---
 sfepy/discrete/equations.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 206935b..24f954c 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -92,12 +92,16 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
         The matrix graph.
     """
     blocks = []
-    roffs = [ii.start for ii in rdi.indx.values()]
-    coffs = [ii.start for ii in cdi.indx.values()]
-    nrs = [ii.stop - ii.start for ii in rdi.indx.values()]
-    ncs = [ii.stop - ii.start for ii in cdi.indx.values()]
-
-    nbr, nbc = max(irs) + 1, max(ics) + 1
+    rindx = [ii for name, ii in rdi.indx.items()
+             if name not in rdi.shared_dofs]
+    cindx = [ii for name, ii in cdi.indx.items()
+             if name not in cdi.shared_dofs]
+    roffs = [ii.start for ii in rindx]
+    coffs = [ii.start for ii in cindx]
+    nrs = [ii.stop - ii.start for ii in rindx]
+    ncs = [ii.stop - ii.start for ii in cindx]
+
+    nbr, nbc = len(nrs), len(ncs)
     blocks = [[0] * nbc for ir in range(nbr)]
     for ii, rdc in enumerate(rdcs):
         cdc = cdcs[ii]
@@ -128,7 +132,7 @@ def create_matrix_graph(rdcs, cdcs, irs, ics, rdi, cdi, active_only=True,
 
     for ir, ic in cycle((nbr, nbc)):
         if isinstance(blocks[ir][ic], int):
-            blocks[ir][ic] = None
+            blocks[ir][ic] = sp.coo_array((nrs[ir], ncs[ic]), dtype=bool)
 
     graph = sp.block_array(blocks, format='csr')
 
@@ -509,8 +513,12 @@ class Equations(Container):
                 irs = copy(ics)
 
         adcs = self.variables.adof_conns
+        # Variables with no active DOFs have the same offsets as their
+        # successors, variables with shared DOFs have common blocks.
         rdi = self.variables.avdi
         cdi = self.variables.adi
+        rnames = [name for name in rdi.indx if name not in rdi.shared_dofs]
+        cnames = [name for name in cdi.indx if name not in cdi.shared_dofs]
 
         # Only cell dof connectivities are used, with the exception of trace
         # facet dof connectivities.
@@ -548,15 +556,12 @@ class Equations(Container):
                 rdcs.append(rdc)
                 cdcs.append(cdc)
 
-                irs.append(rdi.indx[rvar.get_primary_name()].start)
-                ics.append(cdi.indx[cvar.get_primary_name()].start)
+                rname, cname = rvar.get_primary_name(), cvar.get_primary_name()
+                irs.append(rnames.index(rdi.shared_dofs.get(rname, rname)))
+                ics.append(cnames.index(cdi.shared_dofs.get(cname, cname)))
 
                 shared.add(dc_key)
 
-        # Replace offsets by their orders.
-        _, irs = nm.unique(irs, return_inverse=True)
-        _, ics = nm.unique(ics, return_inverse=True)
-
         return rdcs, cdcs, irs, ics
 
     def create_matrix_graph(self, any_dof_conn=False, rdcs=None, cdcs=None,
-- 
2.43.0


From 61ccdb566a24f0f45bc57e0e8dc5f7a76d5a9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:19 +0000
Subject: [PATCH 134/144] fix: assembling of terms with dynamic connectivity
 with several variables, EPBCs, complex

---
 sfepy/discrete/variables.py | 39 +++++++++++++++++++++++++++++++++++++
 sfepy/terms/terms.py        | 28 +++++++++++++-------------
 2 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 2713eb7..67bc786 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1459,6 +1459,45 @@ class FieldVariable(Variable):
                                      return_key=return_key)
         return out
 
+    def get_active_dofs(self, dofs):
+        """
+        Get the positions of the variable DOFs in the global state vector,
+        taking into account the boundary conditions and positions of the other
+        variables.
+
+        Parameters
+        ----------
+        dofs : array of ints
+            The DOFs of the variable.
+
+        Returns
+        -------
+        adofs : array of ints
+            The positions of the DOFs, negative for the DOFs constrained by
+            EBCs.
+        """
+        adofs = nm.asarray(dofs)
+        indx = None
+        if self._variables is not None:
+            adi = getattr(self._variables, 'adi', None)
+            if adi is not None:
+                indx = adi.indx.get(self.get_primary_name())
+
+        if self.eq_map is not None:
+            eq_map = self.eq_map
+
+            adofs = eq_map.eq[adofs]
+            if (indx is not None) and ((indx.stop - indx.start)
+                                       != eq_map.n_eq):
+                # Not only the active DOFs.
+                active = adofs >= 0
+                adofs[active] = eq_map.eqi[adofs[active]]
+
+        if indx is not None:
+            adofs = nm.where(adofs >= 0, adofs + indx.start, adofs)
+
+        return adofs
+
     def get_dof_conn(self, region_name, dct, trace_region=None):
         """
         Get active dof connectivity of a variable.
diff --git a/sfepy/terms/terms.py b/sfepy/terms/terms.py
index da3aaea..b3c5afe 100644
--- a/sfepy/terms/terms.py
+++ b/sfepy/terms/terms.py
@@ -1622,9 +1622,9 @@ class Term(Struct):
             else:
                 assert_(asm_obj.dtype == nm.complex128)
                 assemble = asm.assemble_vector_complex
-                for ii in range(len(val)):
-                    if not(val[ii].dtype == nm.complex128):
-                        val[ii] = nm.complex128(val[ii])
+                if ((not isinstance(val, tuple))
+                    and (val.dtype == nm.float64)):
+                    val = val.astype(nm.complex128)
 
             if not isinstance(val, tuple):
                 dc = vvar.get_dof_conn(rname, rdct)
@@ -1634,21 +1634,20 @@ class Term(Struct):
 
             else:
                 vals, rows, var = val
-                if var.eq_map is not None:
-                    eq = var.eq_map.eq
 
-                    rows = eq[rows]
-                    active = (rows >= 0)
-                    vals, rows = vals[active], rows[active]
+                rows = var.get_active_dofs(rows)
+                active = (rows >= 0)
+                vals, rows = vals[active], rows[active]
 
-                # Assumes no repeated indices in rows!
-                asm_obj[rows] += vals
+                # Several DOFs can have the same row due to EPBCs.
+                nm.add.at(asm_obj, rows, vals)
 
         elif mode == 'matrix':
             svar = diff_var
             tmd = (asm_obj.data, asm_obj.indptr, asm_obj.indices)
 
             if ((asm_obj.dtype == nm.complex128)
+                and (not isinstance(val, tuple))
                 and (val.dtype == nm.float64)):
                 val = val.astype(nm.complex128)
 
@@ -1704,12 +1703,11 @@ class Term(Struct):
                 from scipy.sparse import coo_array
 
                 vals, rows, cols, rvar, cvar = val
-                if rvar.eq_map is not None:
-                    req, ceq = rvar.eq_map.eq, cvar.eq_map.eq
 
-                    rows, cols = req[rows], ceq[cols]
-                    active = (rows >= 0) & (cols >= 0)
-                    vals, rows, cols = vals[active], rows[active], cols[active]
+                rows = rvar.get_active_dofs(rows)
+                cols = cvar.get_active_dofs(cols)
+                active = (rows >= 0) & (cols >= 0)
+                vals, rows, cols = vals[active], rows[active], cols[active]
 
                 extra = coo_array((sign * vals, (rows, cols)),
                                   shape=asm_obj.shape)
-- 
2.43.0


From cefb62f9b035bdbe0ea4ed41d666d87c26229fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:19 +0000
Subject: [PATCH 135/144] fix: term orders and dynamic connectivities in
 evaluations of selected terms

---
 sfepy/discrete/equations.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/sfepy/discrete/equations.py b/sfepy/discrete/equations.py
index 24f954c..d806bed 100644
--- a/sfepy/discrete/equations.py
+++ b/sfepy/discrete/equations.py
@@ -930,6 +930,16 @@ class Equations(Container):
         """
         self.set_state(state, force=True)
 
+        def _add_extras(out):
+            if isinstance(out, tuple):
+                mtx, extras = out
+                for extra in extras:
+                    mtx = mtx + extra
+
+                return mtx
+
+            return out
+
         if by_blocks:
             names = get_default(names, self.names)
 
@@ -949,6 +959,7 @@ class Equations(Container):
                                   asm_obj=tangent_matrix,
                                   select_term=select_term,
                                   assemble=assemble)
+                aux = _add_extras(aux)
 
                 out[key] = aux[ir, ic]
 
@@ -970,14 +981,15 @@ class Equations(Container):
                                   reduced=True, allow_dual=True)
 
                     tangent_matrix.data[:] = 0.0
-                    eq.evaluate(mode='weak', dw_mode='matrix',
-                                asm_obj=tangent_matrix,
-                                select_term=_select_term,
-                                assemble=assemble)
+                    aux = eq.evaluate(mode='weak', dw_mode='matrix',
+                                      asm_obj=tangent_matrix,
+                                      select_term=_select_term,
+                                      assemble=assemble)
+                    aux = _add_extras(aux)
 
                     # All columns (possibly related to several variables) are
                     # included.
-                    out[(eq.name, it)] = tangent_matrix[ir]
+                    out[(eq.name, it)] = aux[ir]
 
         else:
             tangent_matrix.data[:] = 0.0
@@ -1098,9 +1110,8 @@ class Equation(Struct):
             The evaluation result. In 'weak' mode it is the
             `asm_obj`.
         """
-        terms = self.terms
-        if select_term is not None:
-            terms = [term for term in self.terms if select_term(term)]
+        terms = [(it, term) for it, term in enumerate(self.terms)
+                 if (select_term is None) or select_term(term)]
 
         if assemble is None:
             assemble = (lambda name, it, term, *args, **kwargs:
@@ -1108,7 +1119,7 @@ class Equation(Struct):
 
         if mode in ('eval', 'el_eval', 'el_avg', 'qp'):
             val = 0.0
-            for term in terms:
+            for it, term in terms:
                 aux, status = term.evaluate(mode=mode,
                                             term_mode=term_mode,
                                             standalone=False,
@@ -1121,7 +1132,7 @@ class Equation(Struct):
 
             if dw_mode == 'vector':
 
-                for it, term in enumerate(terms):
+                for it, term in terms:
                     val, iels, status = term.evaluate(mode=mode,
                                                       term_mode=term_mode,
                                                       standalone=False,
@@ -1133,7 +1144,7 @@ class Equation(Struct):
             elif dw_mode == 'matrix':
 
                 extras = []
-                for it, term in enumerate(terms):
+                for it, term in terms:
                     svars = term.get_state_variables(unknown_only=True)
 
                     for svar in svars:
@@ -1153,7 +1164,7 @@ class Equation(Struct):
                 if diff_vars is None: diff_vars = ()
 
                 for ic, diff_var in enumerate(diff_vars):
-                    for it, term in enumerate(terms):
+                    for it, term in terms:
                         if not (term.diff_info and
                                 (diff_var in term.get_material_names(part=1))):
                             continue
-- 
2.43.0


From 1b33739576dad299543dc486540df4b826da9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:23 +0000
Subject: [PATCH 136/144] fix: reference coordinates of points outside of all
 cells

---
 sfepy/discrete/common/extmods/refcoors.c | 34 ++++++++++++------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 47373ba..cd5be22 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -390,12 +390,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
 {
   BasisContext *ctx = (BasisContext *) _ctx;
 
-  int32 ip, ic, ii, imin, ok, xi_ok, ret = RET_OK;
+  int32 ip, ic, ii, imin, ok, xi_ok, xi_ok_min, ret = RET_OK;
   int32 D = mesh->topology->max_dim;
   int32 nc = mesh->geometry->dim;
   float64 d_min, dist;
   float64 *mesh_coors = mesh->geometry->coors;
-  float64 buf3[3];
+  float64 buf3[3], xi_min[3];
   FMField point[1], e_coors[1], xi[1];
   Indices cell_vertices[1];
   MeshEntity cell_ent[1];
@@ -423,9 +423,9 @@ int32 refc_find_ref_coors(FMField *ref_coors,
       continue;
     }
 
-    ok = xi_ok = 0;
+    ok = xi_ok_min = 0;
     d_min = 1e10;
-    imin = candidates[offsets[ip]];
+    imin = -1;
 
     for (ic = offsets[ip]; ic < offsets[ip+1]; ic++) {
       /* output("***** %d %d %d\n", ip, ic, candidates[ic]); */
@@ -438,26 +438,26 @@ int32 refc_find_ref_coors(FMField *ref_coors,
                       ctx->e_coors_max->val);
       xi_ok = ctx->get_xi_dist(&dist, xi, point, e_coors, ctx);
 
-      if (xi_ok) {
-        if (dist < qp_eps) {
-          imin = cell_ent->ii;
-          ok = 1;
-          break;
-        } else if (dist < d_min) {
-          d_min = dist;
-          imin = cell_ent->ii;
-        }
-      } else if (dist < d_min) {
+      // Keep the data of the closest cell.
+      if ((imin < 0) || (dist < d_min)) {
         d_min = dist;
         imin = cell_ent->ii;
+        xi_ok_min = xi_ok;
+        for (ii = 0; ii < nc; ii++) {
+          xi_min[ii] = xi->val[ii];
+        }
+      }
+      if (xi_ok && (dist < qp_eps)) {
+        ok = 1;
+        break;
       }
     }
-    /* output("-> %d %d %d %.3e\n", imin, xi_ok, ok, d_min); */
+    /* output("-> %d %d %d %.3e\n", imin, xi_ok_min, ok, d_min); */
 
     cells[ip] = imin;
 
     if (ok != 1) {
-      if (!xi_ok) {
+      if (!xi_ok_min) {
         status[ip] = 4;
       } else if (allow_extrapolation) {
         if (sqrt(d_min) < close_limit) {
@@ -473,7 +473,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     }
 
     for (ii = 0; ii < nc; ii++) {
-      ref_coors->val[nc*ip+ii] = xi->val[ii];
+      ref_coors->val[nc*ip+ii] = xi_min[ii];
     }
     ERR_CheckGo(ret);
   }
-- 
2.43.0


From 09b64c68e21029664a8c21052fdea67814c5bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:53 +0000
Subject: [PATCH 137/144] fix: evaluation in points of fields defined on parts
 of the domain

---
 sfepy/discrete/fem/fields_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 02ffa1b..7c050ee 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -1013,7 +1013,10 @@ class FEField(Field):
                 conn = self.econn[:, :self.gel.n_vertex]
 
             conns = [conn]
-            mat_ids = [self.cmesh.cell_groups]
+            mat_ids = self.cmesh.cell_groups
+            if len(mat_ids) != len(conn):
+                mat_ids = mat_ids[self.region.get_cells()]
+            mat_ids = [mat_ids]
             tdim = self.cmesh.tdim
             descs = f'{tdim}_{conn.shape[1]}'
             if descs not in mesh.descs:
@@ -1029,6 +1032,9 @@ class FEField(Field):
             mesh = Mesh.from_data(self.name, coors[:, :tdim], None, conns,
                                   mat_ids, [descs])
 
+        elif len(self.region.get_cells()) < mesh.n_el:
+            mesh = Mesh.from_region(self.region, mesh, localize=True)
+
         return mesh
 
     def get_evaluate_cache(self, cache=None, share_geometry=False,
@@ -1067,7 +1073,7 @@ class FEField(Field):
         timer = Timer(start=True)
         if (cache.get('cmesh', None) is None) or not share_geometry:
             mesh = self.create_mesh(extra_nodes=False)
-            cache.cmesh = cmesh = self.cmesh
+            cache.cmesh = cmesh = mesh.cmesh
 
             gels = create_geometry_elements()
 
@@ -1084,6 +1090,7 @@ class FEField(Field):
                 cache.normals0 = cmesh.get_facet_normals(0)
                 cache.normals1 = cmesh.get_facet_normals(1)
 
+        cmesh = cache.cmesh
         output('cmesh setup: %f s' % timer.stop(), verbose=verbose)
 
         timer.start()
-- 
2.43.0


From 540886b558e954db9d871129b398a07b5dadf459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:53 +0000
Subject: [PATCH 138/144] fix: reference coordinates in probe caches with
 another mesh, points or closeness limit

---
 sfepy/discrete/probes.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 0c92b95..70616f2 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -182,14 +182,18 @@ class Probe(Struct):
         """
         return Probe.cache if self.share_geometry else self.cache
 
-    def get_actual_cache(self, pars, cache, hash_chunk_size=100000):
+    def get_actual_cache(self, pars, points, cache, hash_chunk_size=100000):
         """
         Return the actual evaluate cache, which is a combination of the
         (mesh-based) evaluate cache and probe-specific data, like the reference
         element coordinates. The reference element coordinates are reused, if
-        the sha1 hash of the probe parameter vector does not change.
+        the (mesh-based) evaluate cache, the closeness limit and the sha1 hash
+        of the probe parameter vector and points do not change.
         """
-        self.acache += cache
+        same_geometry = cache.cmesh is self.acache.get('cmesh', None)
+        for key, val in cache.to_dict().items():
+            if key != 'name':
+                setattr(self.acache, key, val)
 
         def _gen_array_chunks(arr):
             ii = 0
@@ -200,9 +204,12 @@ class Probe(Struct):
         sha1 = hashlib.sha1()
         for chunk in _gen_array_chunks(pars):
             sha1.update(chunk)
+        for chunk in _gen_array_chunks(points):
+            sha1.update(chunk)
+        sha1.update(repr(self.options.close_limit).encode())
 
         digest = sha1.hexdigest()
-        if digest != self.acache.pars_digest:
+        if (digest != self.acache.pars_digest) or not same_geometry:
             self.acache.pars_digest = digest
             self.acache.ref_coors = None
             self.acache.cells = None
@@ -317,7 +324,7 @@ class Probe(Struct):
             if not nm.isfinite(points).all():
                 raise ValueError('Inf/nan in probe points!')
 
-            acache = self.get_actual_cache(pars, cache)
+            acache = self.get_actual_cache(pars, points, cache)
 
             vals, ref_coors, cells, status = ev(
                 points, mode=mode, strategy='general',
-- 
2.43.0


From dd7729449567d44254db1ce3418f31170cbdb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:53 +0000
Subject: [PATCH 139/144] fix: circle probe with size hint or normal close to z
 axis

---
 sfepy/discrete/probes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index 70616f2..b1e4803 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -384,7 +384,12 @@ class Probe(Struct):
 
             refine_flag = dist > pd
             if self.is_cyclic:
-                pd1 = 0.5 * (ed[0] + ed[-1])
+                if self.options.size_hint is None:
+                    pd1 = 0.5 * (ed[0] + ed[-1])
+
+                else:
+                    pd1 = self.options.size_hint
+
                 dist1 = nla.norm(points[0] - points[-1])
 
                 refine_flag = nm.r_[refine_flag, dist1 > pd1]
@@ -720,9 +725,9 @@ class CircleProbe(Probe):
             # Rotate to satisfy the normal, shift to the centre.
             n1 = nm.array([0.0, 0.0, 1.0], dtype=nm.float64)
             axis = nm.cross(n1, self.normal)
-            angle = nm.arccos(nm.dot(n1, self.normal))
+            angle = nm.arctan2(nla.norm(axis), nm.dot(n1, self.normal))
 
-            if nla.norm(axis) < 0.1:
+            if nla.norm(axis) < 1e-14:
                 # n1 == self.normal
                 rot_mtx = nm.eye(3, dtype=nm.float64)
             else:
-- 
2.43.0


From 58a22b3bfcc439703e5eacf99e5bff560bd712eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:53 +0000
Subject: [PATCH 140/144] fix: probe in a single point

---
 sfepy/discrete/probes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/probes.py b/sfepy/discrete/probes.py
index b1e4803..eff98fb 100644
--- a/sfepy/discrete/probes.py
+++ b/sfepy/discrete/probes.py
@@ -436,6 +436,8 @@ class PointsProbe(Probe):
         Probe.__init__(self, name=name, share_geometry=share_geometry,
                        points=points, n_point=n_point)
 
+        # Also a single point is possible.
+        self.n_point_required = self.n_point0 = self.n_point = n_point
         self.n_point_single = n_point
 
     def report(self):
-- 
2.43.0


From 9b217a52fdc885fdd1a17a004618967f051e4652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:32 +0000
Subject: [PATCH 141/144] fix: cycling of the convex location of points

---
 sfepy/discrete/common/extmods/refcoors.c | 38 ++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index cd5be22..c88c469 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -139,7 +139,7 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
   BasisContext *ctx = (BasisContext *) _ctx;
   int32 ip, ic, icell, icell_max = 0, imin, ik, ok, ret = RET_OK;
   uint32 ii;
-  int32 xi_ok, hexa_reverse;
+  int32 xi_ok, hexa_reverse, icell_limit;
   int32 D = mesh->topology->max_dim;
   int32 dim = D - 1;
   uint32 nc = mesh->geometry->dim;
@@ -150,7 +150,7 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
   uint32 *cell_types = mesh->topology->cell_types;
   float64 d_min, tmin, tt, dist;
   float64 *mesh_coors = mesh->geometry->coors;
-  float64 buf3[3];
+  float64 buf3[3], xi_min[3];
   float64 buf9[9];
   FMField point[1], centroid[1], _normals0[1], _normals1[1], e_coors[1], xi[1];
   Indices cell_vertices[1];
@@ -186,6 +186,8 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
 
   ctx->is_dx = 0;
 
+  icell_limit = Min(10000, 2 * mesh->topology->num[D] + 10);
+
   for (ip = 0; ip < coors->nRow; ip++) {
     ic = ics[ip];
     /* output("***** %d %d\n", ip, ic); */
@@ -336,9 +338,35 @@ int32 refc_find_ref_coors_convex(FMField *ref_coors,
 
       icell++;
       icell_max = Max(icell, icell_max);
-      if (icell > 10000) {
-        errput("cannot find containing cell!\n");
-        ERR_CheckGo(ret);
+      if (icell > icell_limit) { // The walk cycles -> try all cells.
+        d_min = 1e10;
+        ok = xi_ok = 0;
+        for (ii = 0; ii < mesh->topology->num[D]; ii++) {
+          ctx->iel = ii;
+          cell_ent->ii = ii;
+          me_get_incident2(cell_ent, cell_vertices, cD0);
+
+          _get_cell_coors(e_coors, cell_vertices, mesh_coors, nc,
+                          ctx->e_coors_max->val);
+          if (!ctx->get_xi_dist(&dist, xi, point, e_coors, ctx)) continue;
+
+          if (dist < d_min) {
+            xi_ok = 1;
+            d_min = dist;
+            cell = ii;
+            for (ik = 0; ik < nc; ik++) {
+              xi_min[ik] = xi->val[ik];
+            }
+          }
+          if (dist < qp_eps) {
+            ok = 1;
+            break;
+          }
+        }
+        for (ik = 0; xi_ok && (ik < nc); ik++) {
+          xi->val[ik] = xi_min[ik];
+        }
+        break;
       }
     }
 
-- 
2.43.0


From de663e6c279618f432d60de14b4c007655c432f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:14 +0000
Subject: [PATCH 142/144] fix: distribution of DOFs to tasks without neighbors

---
 sfepy/parallel/parallel.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index 1846cd0..d3c55ba 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -170,7 +170,9 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
     inter_count = 0
     ocs = nm.zeros(0, dtype=nm.int32)
     cell_parts = []
-    for ir, ntasks in ordered_iteritems(inter_facets):
+    for ir in nm.unique(cell_tasks):
+        # Tasks need not have any common facets with other tasks.
+        ntasks = inter_facets.get(ir, {})
         cells = nm.where(cell_tasks == ir)[0].astype(nm.int32)
         cell_parts.append(cells)
 
@@ -247,7 +249,10 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
 
         domain.regions.pop() # Remove the cell region.
 
-        inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
+        inner_dofs = dofs
+        if len(inter_dofs):
+            inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
+
         n_inner = len(inner_dofs)
         rdof_map[3] += n_inner
         assert_(nm.all(id_map[inner_dofs] == 0))
@@ -282,17 +287,6 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
         dof_map[4] = offset
         offset += n_owned
 
-    if not len(dof_maps):
-        dofs = _get_dofs_region(field, field.region)
-        dof_maps[0] = [dofs, [], [], len(dofs), 0]
-        id_map[:] = nm.arange(len(dofs), dtype=nm.uint32)
-
-    if not len(cell_parts):
-        cell_parts.append(nm.arange(len(cell_tasks), dtype=nm.int32))
-
-    if not len(overlap_cells):
-        overlap_cells.append(nm.zeros(0, dtype=nm.int32))
-
     return dof_maps, id_map, cell_parts, overlap_cells
 
 def verify_task_dof_maps(dof_maps, id_map, field, use_expand_dofs=False,
-- 
2.43.0


From 3055c4dde9fbf926e8632137dc084963d3010a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:14 +0000
Subject: [PATCH 143/144] fix: distribution of DOFs shared by tasks without
 common facets

---
 sfepy/parallel/parallel.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index d3c55ba..3da7b21 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -253,10 +253,21 @@ def create_task_dof_maps(field, cell_tasks, inter_facets, is_overlap=True,
         if len(inter_dofs):
             inner_dofs = nm.setdiff1d(dofs, nm.concatenate(inter_dofs))
 
+        # DOFs shared with tasks having no common facets can be already owned.
+        inner_dofs = inner_dofs[id_map[inner_dofs] == 0]
         n_inner = len(inner_dofs)
         rdof_map[3] += n_inner
-        assert_(nm.all(id_map[inner_dofs] == 0))
         id_map[inner_dofs] = 1
+
+        if is_overlap:
+            others = _get_dofs_conn(field, field.econn[cell_tasks != ir])
+            shared_dofs = nm.intersect1d(inner_dofs, others)
+            if len(shared_dofs):
+                if use_expand_dofs:
+                    shared_dofs = shared_dofs // field.n_components
+                ocs = nm.where(nm.isin(field.econn, shared_dofs).any(axis=1))[0]
+                rdof_map[2].append(ocs.astype(nm.int32))
+
         count += n_inner
 
         rdof_map[0] = inner_dofs
-- 
2.43.0


From b6042d890b5c2834ba420bd1b7140b300244527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:14 +0000
Subject: [PATCH 144/144] fix: different overlap cells of fields in a composite
 distribution

---
 sfepy/parallel/parallel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sfepy/parallel/parallel.py b/sfepy/parallel/parallel.py
index 3da7b21..c51d8fe 100644
--- a/sfepy/parallel/parallel.py
+++ b/sfepy/parallel/parallel.py
@@ -491,6 +491,14 @@ def distribute_fields_dofs(fields, cell_tasks, is_overlap=True,
                          coffsets=nm.empty(size, dtype=nm.int32))
             gfds.append(gfd)
 
+        # All fields have to use the same cells.
+        for ir in range(size):
+            overlap_cells = nm.unique(
+                nm.concatenate([gfd.overlap_cells[ir] for gfd in gfds])
+            )
+            for gfd in gfds:
+                gfd.overlap_cells[ir] = overlap_cells
+
         # Initialize composite offsets of DOFs.
         if len(fields) > 1:
             # Renumber id_maps for field inter-leaving.
-- 
2.43.0

