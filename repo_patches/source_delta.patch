From def1c4119f53ce27faa5358f6e6857e1f6bd74da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 01/77] fix: use the node beyond the surface as adjacent node
 when a ray leaves its container

When two objects are separated by a gap, a ray leaving one towards the other was
refracted and reflected as if it entered the other object directly, because the
next intersection along the ray was taken as the adjacent node.
---
 pvtrace/algorithm/photon_tracer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 857dae1..26aecf6 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -103,7 +103,13 @@ def next_hit(scene, ray):
     hit_node = hit.hit
     distance = distance_between(ray.position, point)
     if container == hit_node:
-        adjacent = intersections[1].hit
+        # Leaving the container: the node entered is the one which contains the
+        # ray just beyond this surface. This is not necessarily the next node along
+        # the ray, which may be a separate object further away.
+        beyond = [
+            x for x in intersections if not close_to_zero(x.distance - hit.distance)
+        ]
+        adjacent = find_container(beyond) if beyond else intersections[1].hit
     else:
         adjacent = hit_node
     return hit_node, (container, adjacent), point, distance
-- 
2.43.0


From 6b4ec3e7311a9b0707385eef290ff430c2c0ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 02/77] fix: engine uses the node beyond the surface as
 adjacent node when a ray leaves its container

---
 pvtrace/engine/_kernel.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..ff5d44e 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -709,7 +709,23 @@ cdef int trace_one(
             if container < 0:
                 container = hit
             if container == hit:
+                # Leaving the container: the node entered is the one that
+                # contains the ray just beyond this surface (not
+                # necessarily the next node along the ray).
+                for node in range(S.n_nodes):
+                    node_hits[node] = 0
+                    node_min_t[node] = INFINITY
+                for i in range(nhits):
+                    if fabs(hit_t[i] - t0) >= EPS:
+                        node_hits[hit_node[i]] += 1
+                        if hit_t[i] < node_min_t[hit_node[i]]:
+                            node_min_t[hit_node[i]] = hit_t[i]
                 adjacent = hit_node[second]
+                best = INFINITY
+                for node in range(S.n_nodes):
+                    if node_hits[node] == 1 and node_min_t[node] < best:
+                        best = node_min_t[node]
+                        adjacent = node
             else:
                 adjacent = hit
 
-- 
2.43.0


From f7eb04d58723cd2481d3e5f51d6da6d9fbffa479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 03/77] fix: engine samples phase functions in the frame of the
 containing node

A Henyey-Greenstein or cone phase function of a component in a rotated node was
applied about the world z axis instead of the node's, unlike the Python tracer.
---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index ff5d44e..574c481 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -805,8 +805,8 @@ cdef int trace_one(
                 # Radiative: re-emit with new direction (and wavelength)
                 sample_phase(S.comp_phase_type[comp], S.comp_phase_param[comp],
                              &rng, new_dir)
-                for i in range(3):
-                    direction[i] = new_dir[i]
+                # Phase functions are defined in the frame of the container
+                transform_vector(S.l2w + container * 16, new_dir, direction)
                 source = comp
                 if ctype == COMP_LUMINOPHORE:
                     ax = S.ems_x + S.ems_start[comp]
-- 
2.43.0


From 5c0c6eda310784ecd9155bd50bc803bf63f7db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 04/77] Verification hooks in the kernel's random stream (off
 unless PVTRACE_VERIF_HOOKS is defined)

---
 pvtrace/engine/_kernel.pyx | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 574c481..14f6edf 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -72,6 +72,22 @@ cdef enum:
 # Random number generation: splitmix64-seeded xoshiro256+, one stream per
 # ray so results are independent of thread scheduling.
 
+cdef extern from *:
+    """
+    #ifdef PVTRACE_VERIF_HOOKS
+    /* Verification builds only: an external driver observes the seeding of
+       every random stream and may replace the values drawn from it. */
+    extern void pvtrace_verif_seed(void* rng, unsigned long long seed);
+    extern double pvtrace_verif_uniform(void* rng, double u);
+    #else
+    #define pvtrace_verif_seed(rng, seed) ((void)0)
+    #define pvtrace_verif_uniform(rng, u) (u)
+    #endif
+    """
+    void pvtrace_verif_seed(void* rng, unsigned long long seed) noexcept nogil
+    double pvtrace_verif_uniform(void* rng, double u) noexcept nogil
+
+
 cdef struct RNG:
     unsigned long long s0
     unsigned long long s1
@@ -94,6 +110,7 @@ cdef inline void rng_seed(RNG* rng, unsigned long long seed) noexcept nogil:
     rng.s1 = _splitmix64(&state)
     rng.s2 = _splitmix64(&state)
     rng.s3 = _splitmix64(&state)
+    pvtrace_verif_seed(rng, seed)
 
 
 cdef inline unsigned long long _rotl(unsigned long long x, int k) noexcept nogil:
@@ -110,7 +127,7 @@ cdef inline double rng_uniform(RNG* rng) noexcept nogil:
     rng.s0 ^= rng.s3
     rng.s2 ^= t
     rng.s3 = _rotl(rng.s3, 45)
-    return (result >> 11) * (1.0 / 9007199254740992.0)
+    return pvtrace_verif_uniform(rng, (result >> 11) * (1.0 / 9007199254740992.0))
 
 
 # ----------------------------------------------------------------------
-- 
2.43.0


From f4edc68395260fbb7d10800a268ad4c7472a06df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 05/77] fix: histogram values just below the range are not
 counted in the first bin

---
 pvtrace/engine/_kernel.pyx | 4 ++++
 pvtrace/engine/tally.py    | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 14f6edf..915b8c3 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -559,6 +559,8 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
         for h in range(S.rec_hist_start[r], S.rec_hist_start[r] + S.rec_hist_n[r]):
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
+            if va < S.h_lo_a[h]:
+                continue  # the integer conversion below rounds towards zero
             ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
             if ia < 0 or ia >= S.h_na[h]:
                 continue
@@ -567,6 +569,8 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
             else:
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
+                if vb < S.h_lo_b[h]:
+                    continue
                 ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
                 if ib < 0 or ib >= S.h_nb[h]:
                     continue
diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..e79d47b 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -79,6 +79,8 @@ class _TallyState:
 
 
 def _bin_index(value, hist):
+    if value < hist.start:
+        return -1  # int() below rounds towards zero
     index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
     return index if 0 <= index < hist.bins else -1
 
-- 
2.43.0


From 2aa5c43319e5181b569020a83af933c683cfaa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 06/77] fix: a recorded ray that exhausts its event budget is
 still tallied to its end

---
 pvtrace/engine/_kernel.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 915b8c3..44a5d45 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -676,12 +676,14 @@ cdef int trace_one(
     while True:
         count += 1
 
-        # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
+        # Close the history with a KILL record when its event budget is
+        # exhausted rather than silently dropping events. The ray itself
+        # is traced to its end: tallies do not depend on which rays have
+        # their history recorded.
         if base >= 0 and nevents >= elog.max_events - 1:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
-            break
+            base = -1
 
         # --- next_hit: intersect every node ---------------------------
         nhits = 0
-- 
2.43.0


From 5c84edd884871bd35abdcf634ee07d20376cbac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 07/77] fix: engine never starts more threads than it has tally
 accumulators for

---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 44a5d45..0e23d11 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -1111,7 +1111,7 @@ def trace_bundle(
     cdef long i, base
     cdef int tid, nev
     with nogil:
-        for i in prange(n, num_threads=num_threads, schedule="dynamic", chunksize=64):
+        for i in prange(n, num_threads=nthr, schedule="dynamic", chunksize=64):
             tid = threadid()
             if record_every > 0 and i % record_every == 0:
                 base = (i // record_every) * max_events
-- 
2.43.0


From 4e853a9b3fcfc306db72917abeb0a5fe52995956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 08/77] fix: engine leaves room for the KILL record after a
 two-event interaction

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 0e23d11..0ff7fcc 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -679,8 +679,9 @@ cdef int trace_one(
         # Close the history with a KILL record when its event budget is
         # exhausted rather than silently dropping events. The ray itself
         # is traced to its end: tallies do not depend on which rays have
-        # their history recorded.
-        if base >= 0 and nevents >= elog.max_events - 1:
+        # their history recorded. One interaction records up to two
+        # events, after which there must still be room for the KILL.
+        if base >= 0 and nevents >= elog.max_events - 2:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
             base = -1
-- 
2.43.0


From da921689d79bf20ca489f99fe860e8c55818710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:53 +0000
Subject: [PATCH 09/77] fix: streamed bundles continue the light cycle where
 the last one stopped

---
 pvtrace/engine/api.py  | 15 +++++++++++----
 pvtrace/engine/emit.py |  8 +++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 3653372..dcc7bdd 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -203,6 +203,7 @@ def simulate(
     max_events=128,
     emit_method="kT",
     record_every=1,
+    first_ray=0,
 ):
     """Trace `num_rays` through `scene` with the compiled engine.
 
@@ -210,8 +211,10 @@ def simulate(
     all light delegates are supported); the tracing loop runs in native
     code. Recorders attached to scene nodes tally every ray; full event
     histories are kept for every `record_every`-th ray (all rays when 1,
-    none when 0). Raises `UnsupportedSceneError` if the scene cannot be
-    compiled — callers can fall back to the Python tracer.
+    none when 0). `first_ray` is the number of rays already emitted by
+    earlier bundles of the same run, so that lights keep taking turns.
+    Raises `UnsupportedSceneError` if the scene cannot be compiled —
+    callers can fall back to the Python tracer.
     """
     from pvtrace.engine import _kernel
 
@@ -227,7 +230,9 @@ def simulate(
 
     from pvtrace.engine.emit import emit_bundle
 
-    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays)
+    positions, directions, wavelengths, sources = emit_bundle(
+        scene, num_rays, first_ray
+    )
 
     tic = time.perf_counter()
     data = _kernel.trace_bundle(
@@ -259,6 +264,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     traced = 0
     while traced < num_rays:
         n = min(bundle, num_rays - traced)
-        result = simulate(scene, n, seed=int(seed) + traced, **kwargs)
+        result = simulate(
+            scene, n, seed=int(seed) + traced, first_ray=traced, **kwargs
+        )
         traced += n
         yield result, traced
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..4ea57d8 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -89,13 +89,14 @@ def _sample_directions(delegate, n):
     return None
 
 
-def emit_bundle(scene, num_rays):
+def emit_bundle(scene, num_rays, first_ray=0):
     """Emit `num_rays` from the scene's lights as world-frame arrays.
 
     Returns (positions, directions, wavelengths, sources). Lights with
     built-in delegates are sampled with numpy; others fall back to the
     per-ray Python generator. Rays cycle between lights exactly like
-    `scene.emit`.
+    `scene.emit`; a bundle that continues an earlier one passes the number
+    of rays already emitted as `first_ray` to continue the cycle.
     """
     lights = scene.light_nodes
     positions = np.zeros((num_rays, 3))
@@ -104,7 +105,8 @@ def emit_bundle(scene, num_rays):
     sources = np.empty(num_rays, dtype=object)
 
     for index, node in enumerate(lights):
-        rows = np.arange(index, num_rays, len(lights))
+        start = (index - first_ray) % len(lights)
+        rows = np.arange(start, num_rays, len(lights))
         n = rows.size
         if n == 0:
             continue
-- 
2.43.0


From 93160cb6fcd9732a90dc81026f040cc3b85e00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 10/77] fix: henyey_greenstein with g=0 is isotropic instead of
 dividing by zero

---
 pvtrace/material/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..9b04caa 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -114,13 +114,13 @@ def isotropic() -> numpy.ndarray:
 def henyey_greenstein(g=0.0) -> numpy.ndarray:
     """Henyey-Greenstein phase function."""
     # https://www.astro.umd.edu/~jph/HG_note.pdf
-    p = np.random.uniform(0, 1)
-    s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     # Inverse is not defined at g=0 but in the limit
     # tends to the isotropic case.
     if close_to_zero(g):
         return isotropic()
+    p = np.random.uniform(0, 1)
+    s = 2 * p - 1
+    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 46ac51e4baf58578732e8edd39e98c378ac6c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 11/77] fix: engine never selects a component with zero
 attenuation coefficient

---
 pvtrace/engine/_kernel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 0ff7fcc..6acb3eb 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -816,7 +816,7 @@ cdef int trace_one(
                     S.abs_y + S.abs_start[cbase + k],
                     S.abs_n[cbase + k],
                 )
-                if target <= running:
+                if target < running:
                     comp = cbase + k
                     break
 
-- 
2.43.0


From f5163a7fd5b24c2a5606ce0560ec81e0b768f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 12/77] fix: cumulative distribution weights intervals by their
 width

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 235ef22..ef128b6 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -51,7 +51,7 @@ class Distribution(object):
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
-                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5)
+                cdf = np.cumsum((y[:-1] + y[1:]) * 0.5 * np.diff(x))
                 cdf = cdf / np.max(cdf)
                 cdf = np.hstack([0.0, cdf])
                 self._cdf = cdf
-- 
2.43.0


From 3f6f648866c1bdda4f9fc41bcaf0e0db8ec3560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 13/77] fix: distribution refuses spectra with any non-finite
 value

---
 pvtrace/material/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index ef128b6..c4b73fd 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -35,7 +35,7 @@ class Distribution(object):
         else:
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
-            if not np.isfinite(y).any():
+            if not np.isfinite(y).all():
                 raise ValueError("All values of y must be finite.")
             if np.any(y < 0.0):
                 raise ValueError(
-- 
2.43.0


From f2245f3bfa1c1d85a3f683331ddd49b44fc6baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 14/77] fix: histogram distribution evaluates the bin which
 contains x

---
 pvtrace/material/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index c4b73fd..ebf39c5 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -80,7 +80,7 @@ class Distribution(object):
             raise ValueError("x is outside data range.", {"x": x, "x_range": self._x_range})
 
         if self.hist:
-            idx = np.searchsorted(self._edges[:-1], x)
+            idx = np.searchsorted(self._x, x, side="right") - 1
             return self._y[idx]
         else:
             y = np.interp(x, self._x, self._y, left=np.nan, right=np.nan)
@@ -125,7 +125,7 @@ class Distribution(object):
             raise ValueError("x is outside data range.", {"x": x, "x_range": self._x_range})
 
         if self.hist:
-            idx = np.searchsorted(self._edges[:-1], x)
+            idx = np.searchsorted(self._x, x, side="right") - 1
             return self._cdf[idx]
         else:
             prob = np.interp(x, self._x, self._cdf, left=np.nan, right=np.nan)
-- 
2.43.0


From 9a0d32e34c87970e0ee1486d4b07e424ed46520c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 15/77] fix: components accept an integer coefficient

---
 pvtrace/material/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..371d605 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -107,8 +107,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, (int, float)):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
-- 
2.43.0


From d73e03cfd7b6cebf48a4b81a8401b899c8c71762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 16/77] fix: engine refuses scenes with too many nodes as
 unsupported

---
 pvtrace/engine/compiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..e6d4d58 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -21,6 +21,7 @@ from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 # Volume interaction selectors cannot be restricted by surface facet
 VOLUME_EVENTS = {"lost", "reacted", "killed"}
 MAX_RECORDERS = 256  # per-ray distinct tracking array size in the kernel
+MAX_NODES = 128  # per-ray intersection table size in the kernel
 
 # Geometry type tags
 GEOM_BOX = 0
@@ -67,6 +68,10 @@ class CompiledScene:
             raise UnsupportedSceneError("Root node must have a geometry.")
 
         n = len(nodes)
+        if n > MAX_NODES:
+            raise UnsupportedSceneError(
+                f"At most {MAX_NODES} geometry nodes are supported."
+            )
         self.scene = scene
         self.nodes = nodes
         self.node_names = [node.name for node in nodes]
-- 
2.43.0


From 217dcfe48a99fc5de99ae6aceadd4319aeb49a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 17/77] fix: engine refuses subclasses of the built-in classes,
 which may behave differently

---
 pvtrace/engine/compiler.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index e6d4d58..b0a36e5 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -15,7 +15,12 @@ from pvtrace.geometry.box import Box
 from pvtrace.geometry.cylinder import Cylinder
 from pvtrace.geometry.sphere import Sphere
 from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
-from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate
+from pvtrace.material.material import Material
+from pvtrace.material.surface import (
+    FresnelSurfaceDelegate,
+    NullSurfaceDelegate,
+    Surface,
+)
 from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
@@ -101,6 +106,10 @@ class CompiledScene:
                 raise UnsupportedSceneError(
                     f"Node {node.name!r} has geometry without a material."
                 )
+            if type(material) is not Material or type(material.surface) is not Surface:
+                raise UnsupportedSceneError(
+                    f"Node {node.name!r} uses a custom material or surface class."
+                )
             self.refractive_index[i] = float(material.refractive_index)
             self.surface_type[i] = self._surface_tag(node, material)
 
@@ -211,14 +220,14 @@ class CompiledScene:
     # -- geometry ------------------------------------------------------
 
     def _compile_geometry(self, i, geometry):
-        if isinstance(geometry, Box):
+        if type(geometry) is Box:
             self.geom_type[i] = GEOM_BOX
             size = np.asarray(geometry._size, dtype=np.float64)
             self.geom_params[i, :3] = size
-        elif isinstance(geometry, Sphere):
+        elif type(geometry) is Sphere:
             self.geom_type[i] = GEOM_SPHERE
             self.geom_params[i, 0] = float(geometry.radius)
-        elif isinstance(geometry, Cylinder):
+        elif type(geometry) is Cylinder:
             self.geom_type[i] = GEOM_CYLINDER
             self.geom_params[i, 0] = float(geometry.length)
             self.geom_params[i, 1] = float(geometry.radius)
@@ -254,14 +263,14 @@ class CompiledScene:
     # -- components ----------------------------------------------------
 
     def _compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
-        # Order matters: Reactor < Absorber < Scatterer, Luminophore < Scatterer
-        if isinstance(component, Reactor):
+        # Exact types only: a subclass may change the physics
+        if type(component) is Reactor:
             ctype = COMP_REACTOR
-        elif isinstance(component, Absorber):
+        elif type(component) is Absorber:
             ctype = COMP_ABSORBER
-        elif isinstance(component, Luminophore):
+        elif type(component) is Luminophore:
             ctype = COMP_LUMINOPHORE
-        elif isinstance(component, Scatterer):
+        elif type(component) is Scatterer:
             ctype = COMP_SCATTERER
         else:
             raise UnsupportedSceneError(
@@ -306,9 +315,9 @@ class CompiledScene:
         phase = component.phase_function
         if phase is isotropic:
             return PHASE_ISOTROPIC, 0.0
-        if isinstance(phase, HenyeyGreenstein):
+        if type(phase) is HenyeyGreenstein:
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
-        if isinstance(phase, Cone):
+        if type(phase) is Cone:
             return PHASE_CONE, float(phase.theta_max)
         raise UnsupportedSceneError(
             f"Node {node.name!r}: custom phase functions are not supported."
-- 
2.43.0


From 608c61d75352c6e6061aff3de6dd4ac1a8749233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 18/77] fix: bundle emission falls back to the light itself for
 custom light and mask classes

---
 pvtrace/engine/emit.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 4ea57d8..14ef688 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -20,13 +20,13 @@ def _sphere_directions(theta, phi):
 
 
 def _sample_wavelengths(delegate, n):
-    if delegate is light_module.default_wavelength or isinstance(
-        delegate, light_module.DefaultWavelength
+    if delegate is light_module.default_wavelength or (
+        type(delegate) is light_module.DefaultWavelength
     ):
         return np.full(n, 555.0)
-    if isinstance(delegate, light_module.ConstantWavelengthMask):
+    if type(delegate) is light_module.ConstantWavelengthMask:
         return np.full(n, delegate.nanometers)
-    if isinstance(delegate, light_module.SpectrumWavelengthMask):
+    if type(delegate) is light_module.SpectrumWavelengthMask:
         return np.asarray(
             delegate.distribution.sample(np.random.uniform(0, 1, n)), dtype=float
         )
@@ -34,23 +34,23 @@ def _sample_wavelengths(delegate, n):
 
 
 def _sample_positions(delegate, n):
-    if delegate is light_module.default_position or isinstance(
-        delegate, light_module.DefaultPosition
+    if delegate is light_module.default_position or (
+        type(delegate) is light_module.DefaultPosition
     ):
         return np.zeros((n, 3))
-    if isinstance(delegate, light_module.RectangularMask):
+    if type(delegate) is light_module.RectangularMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
             np.zeros(n),
         ))
-    if isinstance(delegate, light_module.CircularMask):
+    if type(delegate) is light_module.CircularMask:
         angle = np.random.uniform(0, 2 * np.pi, n)
         radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
         return np.column_stack(
             (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
         )
-    if isinstance(delegate, light_module.CubeMask):
+    if type(delegate) is light_module.CubeMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
@@ -60,11 +60,11 @@ def _sample_positions(delegate, n):
 
 
 def _sample_directions(delegate, n):
-    if delegate is light_module.default_direction or isinstance(
-        delegate, light_module.DefaultDirection
+    if delegate is light_module.default_direction or (
+        type(delegate) is light_module.DefaultDirection
     ):
         return np.tile((0.0, 0.0, 1.0), (n, 1))
-    if isinstance(delegate, Cone):
+    if type(delegate) is Cone:
         theta = np.arcsin(
             np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
         )
@@ -78,7 +78,7 @@ def _sample_directions(delegate, n):
         theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-    if isinstance(delegate, HenyeyGreenstein):
+    if type(delegate) is HenyeyGreenstein:
         g = delegate.g
         if abs(g) < 1e-12:
             return _sample_directions(isotropic, n)
@@ -111,12 +111,14 @@ def emit_bundle(scene, num_rays, first_ray=0):
         if n == 0:
             continue
         light = node.light
-        wav = _sample_wavelengths(light.wavelength, n)
-        pos = _sample_positions(light.position, n)
-        direction = _sample_directions(light.direction, n)
+        wav = pos = direction = None
+        if type(light) is light_module.Light:
+            wav = _sample_wavelengths(light.wavelength, n)
+            pos = _sample_positions(light.position, n)
+            direction = _sample_directions(light.direction, n)
 
         if wav is None or pos is None or direction is None:
-            # Unknown delegate: per-ray Python fallback for this light
+            # Unknown delegate or light: per-ray Python fallback for this light
             for row, ray in zip(rows, node.emit(n)):
                 world = ray.representation(node, scene.root)
                 positions[row] = world.position
-- 
2.43.0


From 1c9abd67e063ad4e6da40977c93ec82bfaf896fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 19/77] fix: engine refuses cone angles and negative
 coefficients the tracer refuses

---
 pvtrace/engine/compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index b0a36e5..b3d3844 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -318,6 +318,11 @@ class CompiledScene:
         if type(phase) is HenyeyGreenstein:
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
         if type(phase) is Cone:
+            # The kernel cannot raise, so refuse what `cone` would refuse
+            if np.isclose(phase.theta_max, 0.0) or phase.theta_max > np.pi / 2:
+                raise UnsupportedSceneError(
+                    f"Node {node.name!r}: expected 0 < theta_max <= pi/2."
+                )
             return PHASE_CONE, float(phase.theta_max)
         raise UnsupportedSceneError(
             f"Node {node.name!r}: custom phase functions are not supported."
@@ -332,6 +337,10 @@ class CompiledScene:
         start = len(xs)
         if dist._x is None:
             # Constant coefficient
+            if dist._y < 0.0:
+                raise UnsupportedSceneError(
+                    f"Node {node.name!r}: coefficients must be positive."
+                )
             xs.append(0.0)
             ys.append(float(dist._y))
             return start, 1
-- 
2.43.0


From 61668019706b9b7869ddafd648dcc000ade326e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:58 +0000
Subject: [PATCH 20/77] fix: results of every task have their own identity on
 the queue

---
 pvtrace/scene/scene.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..ea3a2d4 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -59,14 +59,18 @@ def is_end_ray(event, metadata):
     return False
 
 
-def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
-    """Worker function for multiple processing puts results into queue."""
+def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays, task=None):
+    """Worker function for multiple processing puts results into queue.
+
+    `task` identifies the rays of this call on the queue. The process ID is not
+    unique because a pool may run several tasks in the same process.
+    """
     # Re-seed for this thread/process
     if seed is not None:
         np.random.seed(seed)
 
     count = 0
-    pid = os.getpid()
+    pid = os.getpid() if task is None else task
 
     # What is an "end ray"?
     # Only record major ray events should as entering/reflecting from nodes
@@ -293,7 +297,7 @@ class Scene(object):
             results_proxy = [
                 pool.apply_async(
                     do_simulation_add_to_queue,
-                    (self, rays[idx], seeds[idx], queue, end_rays),
+                    (self, rays[idx], seeds[idx], queue, end_rays, idx),
                 )
                 for idx in range(workers)
             ]
-- 
2.43.0


From 5ac7e3bf008fc629e4267f6f615c284163298eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 21/77] fix: time lost, reacted and killed commands fail for
 every photon

The query result was reduced to its samples, but handle_output needs the
throw ids as well (IndexError: too many indices for array).
---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From 66102bf382beedbd7500e2443397bfcb273f3387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 22/77] fix: time commands round JSON output to a tenth of a
 nanosecond

pandas writes ten decimal places by default, so durations in seconds (photons
live for picoseconds to microseconds) lost most or all of their digits.
---
 pvtrace/cli/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 93ef085..a418660 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -51,7 +51,7 @@ def handle_output(result, output, vertical=None):
         buffer = io.StringIO()
         pandas.DataFrame(
             result[:, 1], columns=["seconds"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
+        ).to_json(buffer, double_precision=15)
         print(buffer.getvalue())
 
 
-- 
2.43.0


From 9f23a443bd97e22681ca2c0e42473030709b47c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 23/77] fix: count lost ignores its --facet filter

---
 pvtrace/cli/count.py |  2 +-
 pvtrace/cli/db.py    | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pvtrace/cli/count.py b/pvtrace/cli/count.py
index eefebac..ba8bfe4 100644
--- a/pvtrace/cli/count.py
+++ b/pvtrace/cli/count.py
@@ -154,7 +154,7 @@ def lost(
         None, "--source", "-s", help="Label of the rays source"
     ),
 ):
-    sql = sql_count_nonradiative_loss_in_node(node, source)
+    sql = sql_count_nonradiative_loss_in_node(node, source, facet=facet)
     conn = sqlite3.connect(database)
     cur = conn.cursor()
     print(cur.execute(*sql).fetchone()[0])
diff --git a/pvtrace/cli/db.py b/pvtrace/cli/db.py
index 6c82dcb..392e778 100644
--- a/pvtrace/cli/db.py
+++ b/pvtrace/cli/db.py
@@ -67,7 +67,7 @@ def _boundary_query(
     return sql, tuple(params)
 
 
-def _volume_query(columns, node, kind, source=None, count=False):
+def _volume_query(columns, node, kind, source=None, facet=None, count=False):
     """Query for rays terminating inside a node's volume."""
 
     inner = [
@@ -78,6 +78,10 @@ def _volume_query(columns, node, kind, source=None, count=False):
     ]
     params = [node, kind]
 
+    if facet:
+        inner.append("AND facet = ?")
+        params.append(facet)
+
     if source:
         inner.append("AND source = ?")
         params.append(source)
@@ -138,9 +142,13 @@ def sql_count_escaping_from_node(
     )
 
 
-def sql_count_nonradiative_loss_in_node(node: str, source: Optional[str] = None):
+def sql_count_nonradiative_loss_in_node(
+    node: str, source: Optional[str] = None, facet: Optional[str] = None
+):
     """Returns the number of rays nonradiatively absorbed in the node"""
-    return _volume_query("throw_id", node, "NONRADIATIVE", source=source, count=True)
+    return _volume_query(
+        "throw_id", node, "NONRADIATIVE", source=source, facet=facet, count=True
+    )
 
 
 def sql_count_reacted_in_node(node: str, source: Optional[str] = None):
-- 
2.43.0


From 199d26bbd75e1562dfd368086e4181816d1649fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 24/77] fix: scene files with a spectrum but no coefficient, or
 coefficient zero

A spectrum alone raised ValueError (truth value of an array), and coefficient
zero was treated as missing.
---
 pvtrace/cli/parse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..ca69b94 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -256,12 +256,12 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and spectrum is not None:
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
+        elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
+        elif coefficient is not None:
             return Absorber(coefficient, name=name)
 
         raise ValueError("Unexpected absorber format.")
@@ -289,7 +289,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
 
         spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and spectrum is not None:
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Scatterer(
                 spectrum,
@@ -298,7 +298,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif spectrum:
+        elif spectrum is not None:
             return Scatterer(
                 spectrum,
                 quantum_yield=quantum_yield,
@@ -306,7 +306,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Scatterer(
                 coefficient,
                 quantum_yield=quantum_yield,
@@ -349,7 +349,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
+        if coefficient is not None and absorption_spectrum is not None:
             absorption_spectrum[:, 1] = (
                 absorption_spectrum[:, 1]
                 / numpy.max(absorption_spectrum[:, 1])
@@ -363,7 +363,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif absorption_spectrum:
+        elif absorption_spectrum is not None:
             return Luminophore(
                 absorption_spectrum,
                 emission=emission_spectrum,
@@ -372,7 +372,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Luminophore(
                 coefficient,
                 emission=emission_spectrum,
-- 
2.43.0


From 8eaba9458cdf5386cd92bf81167c07e1be8b89ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 25/77] fix: scatterers and luminophores with a constant
 coefficient in scene files

The spectrum is optional in the schema, but leaving it out raised KeyError.
---
 pvtrace/cli/parse.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index ca69b94..2a2ac47 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -253,6 +253,8 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             hist = spec["hist"]
 
         spectrum = None
+        if "spectrum" in spec:
+            spectrum = None
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
@@ -287,7 +289,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        spectrum = None
+        if "spectrum" in spec:
+            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
         if coefficient is not None and spectrum is not None:
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
@@ -338,9 +342,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
+        absorption_spectrum = None
+        if "spectrum" in spec["absorption"]:
+            absorption_spectrum = parse_spectrum(
+                spec["absorption"]["spectrum"], named_type="absorption"
+            )
 
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
-- 
2.43.0


From 03cf0c5ed0d4696a42836da6959be05490d965cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 26/77] fix: numeric wavelength mask in scene files raises
 TypeError

---
 pvtrace/cli/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 2a2ac47..e25937c 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -175,6 +175,9 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         raise ValueError("Missing attribute")
 
     def parse_wavelength_mask(spec) -> Callable:
+        if isinstance(spec, (int, float)):
+            return ConstantWavelengthMask(spec)
+
         if "nanometers" in spec:
             nm = float(spec["nanometers"])
             return ConstantWavelengthMask(nm)
-- 
2.43.0


From 147980b3e00003c83bddb6ad455e61412107560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 27/77] fix: named spectra extend beyond the range in the scene
 file

numpy.arange(min, max + spacing, spacing) adds a value beyond max when the
spacing does not divide the range, and for many spacings which do (rounding).
---
 pvtrace/cli/parse.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index e25937c..807f8af 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -215,11 +215,10 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         )
 
     def load_named_spectrum(spec, named_type) -> Optional[numpy.ndarray]:
-        x = np.arange(
-            spec["range"]["min"],
-            spec["range"]["max"] + spec["range"]["spacing"],
-            spec["range"]["spacing"],
-        )
+        start, stop = spec["range"]["min"], spec["range"]["max"]
+        spacing = spec["range"]["spacing"]
+        # Both ends are included, but no value beyond the end of the range
+        x = start + spacing * np.arange(int((stop - start) / spacing + 1e-6) + 1)
         module = SPECTRUM_MODULES[spec["name"]]
         if named_type == "absorption":
             return np.column_stack((x, module.absorption(x)))
-- 
2.43.0


From ae6bf71582d5ca1692a03a7ca44e9a82ffdb62bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 28/77] fix: look_at with a direction of any length, from any
 orientation

The rotation formula assumed a unit vector and a node which has not been
rotated yet, and directions within 0.25 degrees of -z were replaced by -z.
---
 pvtrace/scene/node.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..53ac87a 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -6,7 +6,6 @@ from pvtrace.common.errors import AppError
 from pvtrace.geometry.intersection import Intersection
 from pvtrace.geometry.transformable import Transformable
 from pvtrace.geometry.utils import distance_between
-from pvtrace.geometry.transformations import rotation_from_matrix
 import logging
 
 logger = logging.getLogger(__name__)
@@ -45,28 +44,23 @@ class Node(NodeMixin, Transformable):
         with always point the face of the node along the direction vector
         specified. Note that the if the node is displaced from the origin this
         will be respected and the node will be rotate around it's centre.
-
-        References
-        ----------
-        [1] https://math.stackexchange.com/q/476311
         """
-        a = np.array([0, 0, 1])  # +z direction
-        b = np.array(vector)  # direction we want to face
-        c = np.dot(a, b)
-        if np.isclose(c, -1.0):
-            # Anti-parallel rotation can be done without computation
-            self.rotate(np.pi, [0, 1, 0])
+        a = self.pose[0:3, 2]  # direction the face is pointing now
+        b = np.array(vector, dtype=float)  # direction we want to face
+        length = np.linalg.norm(b)
+        if length == 0.0:
+            raise ValueError("Cannot look along a zero vector.")
+        b = b / length
+
+        axis = np.cross(a, b)
+        sin, cos = np.linalg.norm(axis), np.dot(a, b)
+        if sin < 1e-12:
+            # Anti-parallel rotation can be around any perpendicular axis
+            if cos < 0:
+                self.rotate(np.pi, self.pose[0:3, 1])
             return
 
-        v = np.cross(a, b)
-        C = 1 / (1 + c)
-        v1, v2, v3 = v[0], v[1], v[2]
-        vx = np.array([[0, -v3, v2], [v3, 0, -v1], [-v2, v1, 0]])
-        r = np.identity(3) + vx + vx @ vx * C
-        R = np.identity(4)
-        R[:3, :3] = r
-        angle, direc, point = rotation_from_matrix(R)
-        self.rotate(angle, direc)
+        self.rotate(np.arctan2(sin, cos), axis)
 
     # Convert between coordinate systems
 
-- 
2.43.0


From fe602d46172d94ede16da374b26bb8d4a725775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 29/77] fix: translate raises for nodes placed at integer
 coordinates

---
 pvtrace/geometry/transformable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index a405999..93e7c0c 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -46,7 +46,7 @@ class Transformable(object):
         """
         super(Transformable, self).__init__()
         self._location = (
-            np.zeros(3, dtype=float) if location is None else np.array(location)
+            np.zeros(3) if location is None else np.array(location, dtype=float)
         )
         self._pose = translation_matrix(self._location)
 
@@ -74,7 +74,7 @@ class Transformable(object):
 
     @location.setter
     def location(self, new_value):
-        self._location = np.array(new_value)
+        self._location = np.array(new_value, dtype=float)
         self._pose[0:3, 3] = np.array(new_value)
         return self
 
-- 
2.43.0


From b7e7b9cb7ba7bcd53c8328acf065a5368914c0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 30/77] fix: a pose given as integers truncates later locations

---
 pvtrace/geometry/transformable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/geometry/transformable.py b/pvtrace/geometry/transformable.py
index 93e7c0c..18aa034 100644
--- a/pvtrace/geometry/transformable.py
+++ b/pvtrace/geometry/transformable.py
@@ -64,8 +64,8 @@ class Transformable(object):
 
     @pose.setter
     def pose(self, new_value):
-        self._location = translation_from_matrix(new_value)
-        self._pose = np.array(new_value)
+        self._pose = np.array(new_value, dtype=float)
+        self._location = translation_from_matrix(self._pose)
         return self
 
     @property
-- 
2.43.0


From a5a1432df897847f6225f845a999604d556483bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 31/77] fix: look_at away from the face of a sheared node

---
 pvtrace/scene/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 53ac87a..69bf3b9 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -57,7 +57,7 @@ class Node(NodeMixin, Transformable):
         if sin < 1e-12:
             # Anti-parallel rotation can be around any perpendicular axis
             if cos < 0:
-                self.rotate(np.pi, self.pose[0:3, 1])
+                self.rotate(np.pi, np.cross(a, self.pose[0:3, 0]))
             return
 
         self.rotate(np.arctan2(sin, cos), axis)
-- 
2.43.0


From 6d1a36499a2f248350bd3edb125e980bf03bdfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 32/77] fix: sphere drops an intersection of short chords

---
 pvtrace/geometry/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/geometry/sphere.py b/pvtrace/geometry/sphere.py
index 45b4c4f..d281023 100644
--- a/pvtrace/geometry/sphere.py
+++ b/pvtrace/geometry/sphere.py
@@ -48,7 +48,7 @@ class Sphere(Geometry):
             return []
 
         # Discriminant is zero = one solution, positive == two solutions.
-        if np.isclose(discriminant, 0.0):
+        if discriminant == 0.0:
             t = np.array([-b / (2 * a)])
         else:
             t = np.array(
-- 
2.43.0


From 32b58f132edb3bfeadaeb073edb1fa1dc20861bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 33/77] fix: cylinder surface test misses points rounded
 outwards

---
 pvtrace/geometry/cylinder.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index 70181b8..d2c3cc7 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -27,16 +27,10 @@ class Cylinder(Geometry):
         self._material = new_value
 
     def is_on_surface(self, point):
-        # Just use any direction for a fake ray, we only need the distance
-        _, dist = ray_z_cylinder(self.length, self.radius, point, norm((1, 1, 1)))
-        if len(dist) == 0:
-            return False
-        dist = dist[0]  # Only need closest intersection
-        if close_to_zero(dist):
-            # print("dist from point {} {} is_on_surface True".format(dist, point))
-            return True
-        # print("dist from point {} {} is_on_surface False".format(dist, point))
-        return False
+        # Signed distances to the side and to the nearest cap, negative inside
+        side = np.sqrt(point[0] ** 2 + point[1] ** 2) - self.radius
+        cap = np.absolute(point[2]) - 0.5 * self.length
+        return bool(close_to_zero(max(side, cap)))
 
     def contains(self, point):
         z = point[2]
-- 
2.43.0


From 7e1947a5d5b8c6588546f22ebe2d3cf226782c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 34/77] fix: cylinder side points near a cap get the cap's
 normal

---
 pvtrace/engine/_kernel.pyx   | 12 ++++--------
 pvtrace/geometry/cylinder.py | 10 +++++++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 6acb3eb..f770094 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -401,17 +401,13 @@ cdef inline void local_normal(SceneT* S, int node, double* p, double* out) noexc
         out[2] = p[2] / mag
     else:
         half = 0.5 * params[0]
-        # np.isclose default tolerances
-        if fabs(p[2] + half) <= 1e-8 + 1e-5 * fabs(half):
+        r = sqrt(p[0] * p[0] + p[1] * p[1])
+        # Points of the side can be close to a cap: use the closest surface
+        if fabs(fabs(p[2]) - half) <= fabs(r - params[1]):
             out[0] = 0.0
             out[1] = 0.0
-            out[2] = -1.0
-        elif fabs(p[2] - half) <= 1e-8 + 1e-5 * fabs(half):
-            out[0] = 0.0
-            out[1] = 0.0
-            out[2] = 1.0
+            out[2] = -1.0 if p[2] < 0.0 else 1.0
         else:
-            r = sqrt(p[0] * p[0] + p[1] * p[1])
             out[0] = p[0] / r
             out[1] = p[1] / r
             out[2] = 0.0
diff --git a/pvtrace/geometry/cylinder.py b/pvtrace/geometry/cylinder.py
index d2c3cc7..4b6b897 100644
--- a/pvtrace/geometry/cylinder.py
+++ b/pvtrace/geometry/cylinder.py
@@ -47,11 +47,15 @@ class Cylinder(Geometry):
         """ Normal faces outwards by convention.
         """
         z = surface_point[2]
-        if np.isclose(z, -0.5 * self.length):
+        r = np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))
+        # Points of the side can be close to a cap: use the closest surface
+        cap = np.absolute(np.absolute(z) - 0.5 * self.length)
+        on_cap = cap <= np.absolute(r - self.radius)
+        if on_cap and np.isclose(z, -0.5 * self.length):
             return (0.0, 0.0, -1.0)
-        elif np.isclose(z, 0.5 * self.length):
+        elif on_cap and np.isclose(z, 0.5 * self.length):
             return (0.0, 0.0, 1.0)
-        elif np.isclose(self.radius, np.sqrt(np.sum(np.array(surface_point[:2]) ** 2))):
+        elif np.isclose(self.radius, r):
             v = np.array(surface_point) - np.array([0.0, 0.0, surface_point[2]])
             n = tuple(norm(v).tolist())
             return n
-- 
2.43.0


From 402a3777fff6cd1d09d5bf5de9d40013e3dd7fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 35/77] fix: box reports points on the planes beyond its faces
 as on its surface

---
 pvtrace/geometry/box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index d5ca672..b0938b3 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -45,7 +45,9 @@ class Box(Mesh):
 
     def is_on_surface(self, point):
         on_surf, _ = on_aabb_surface(self._size, point, atol=2 * EPS_ZERO)
-        return on_surf
+        # The planes of the faces extend beyond the box
+        beyond = np.absolute(np.array(point)) > 0.5 * self._size + EPS_ZERO
+        return bool(on_surf and not np.any(beyond))
 
     def normal(self, surface_point: tuple) -> tuple:
         on_surf, surf_indexes = on_aabb_surface(
-- 
2.43.0


From e4f2bc56c464fec26bc056a75d7e505b4225bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 36/77] fix: box misses photons almost parallel to a face

---
 pvtrace/geometry/box.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index b0938b3..1c4cfc9 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -43,6 +43,37 @@ class Box(Mesh):
         mesh = trimesh.creation.box(size)
         super(Box, self).__init__(mesh, material=material)
 
+    def contains(self, point: tuple) -> bool:
+        return bool(np.all(np.absolute(np.array(point)) < 0.5 * self._size))
+
+    def intersections(self, position: tuple, direction: tuple):
+        """Returns tuple of intersection points sorted by distance from origin.
+
+        The triangulated faces miss rays which are almost parallel to a face.
+        """
+        tmin, tmax = (-np.inf, None), (np.inf, None)
+        for axis in range(3):
+            half = 0.5 * float(self._size[axis])
+            p, d = float(position[axis]), float(direction[axis])
+            if d == 0.0:
+                if abs(p) > half:
+                    return tuple()
+                continue
+            face = np.copysign(half, d)
+            tmin = max(tmin, ((-face - p) / d, (axis, -face)))
+            tmax = min(tmax, ((face - p) / d, (axis, face)))
+
+        if tmax[0] <= tmin[0]:
+            return tuple()
+
+        hits = []
+        for t, (axis, face) in (tmin, tmax):
+            if t >= 0.0:
+                point = [float(x + t * v) for x, v in zip(position, direction)]
+                point[axis] = float(face)
+                hits.append(tuple(point))
+        return tuple(hits)
+
     def is_on_surface(self, point):
         on_surf, _ = on_aabb_surface(self._size, point, atol=2 * EPS_ZERO)
         # The planes of the faces extend beyond the box
-- 
2.43.0


From 34447fd514fc1fb0138f303e65a858ce28044abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 37/77] fix: distribution accepts lists, as documented

---
 pvtrace/material/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index ebf39c5..e328c6e 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -33,6 +33,8 @@ class Distribution(object):
             self._x = None
             self._y = y
         else:
+            x = np.asarray(x, dtype=float)
+            y = np.asarray(y, dtype=float)
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
             if not np.isfinite(y).all():
-- 
2.43.0


From 3b9ad89f737e3e758b08d7b5bef71b7ff6598d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 38/77] fix: distribution refuses infinite x values

---
 pvtrace/material/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index e328c6e..2245de0 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -35,6 +35,8 @@ class Distribution(object):
         else:
             x = np.asarray(x, dtype=float)
             y = np.asarray(y, dtype=float)
+            if not np.isfinite(x).all():
+                raise ValueError("All values of x must be finite.")
             if not np.all(np.diff(x) > 0):
                 raise ValueError("x must be sorted and ascending.")
             if not np.isfinite(y).all():
-- 
2.43.0


From d377cd7efaa1069877da3730af0ff496d1e7bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 39/77] fix: histogram distribution samples bins without
 weight, or one value for many

---
 pvtrace/material/distribution.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pvtrace/material/distribution.py b/pvtrace/material/distribution.py
index 2245de0..fba83d3 100644
--- a/pvtrace/material/distribution.py
+++ b/pvtrace/material/distribution.py
@@ -51,7 +51,7 @@ class Distribution(object):
             self._y = y
             if hist:
                 cdf = np.cumsum(y, dtype=float)
-                cdf *= 1.0 / cdf[-1]
+                cdf /= cdf[-1]
                 self._cdf = cdf
                 self._edges = np.insert(x, x.size, 2 * x[-1] - x[-2])
             else:
@@ -174,10 +174,9 @@ class Distribution(object):
 
         if self.hist:
             idx = np.searchsorted(self._cdf, p)
-            try:
-                return self._x[idx]
-            except IndexError:
-                return self._x[-1]
+            # A probability of zero belongs to the first bin which has any weight.
+            idx = np.maximum(idx, np.searchsorted(self._cdf, 0.0, side="right"))
+            return self._x[idx]
         else:
             xval = np.interp(p, self._cdf, self._x, left=np.nan, right=np.nan)
             if xval.size == 1:
-- 
2.43.0


From 6363429097ae4c599e4b1dc45d973bb0d09b0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 40/77] fix: henyey_greenstein gives nan directions for small g

---
 pvtrace/engine/_kernel.pyx | 9 ++++++++-
 pvtrace/engine/emit.py     | 4 +++-
 pvtrace/material/utils.py  | 6 +++++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f770094..5b738b4 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -471,7 +471,14 @@ cdef inline void sample_phase(int phase_type, double phase_param, RNG* rng, doub
         g = phase_param
         g1 = rng_uniform(rng)
         s = 2.0 * g1 - 1.0
-        mu = 1.0 / (2.0 * g) * (1.0 + g * g - ((1.0 - g * g) / (1.0 + g * s)) ** 2)
+        # Arranged so that nothing cancels for small g, and kept in the
+        # domain of acos
+        mu = (1.0 - g * g) / (1.0 + g * s)
+        mu = 0.5 * (g + (s + g) / (1.0 + g * s) * (1.0 + mu))
+        if mu > 1.0:
+            mu = 1.0
+        elif mu < -1.0:
+            mu = -1.0
         phi = 2.0 * M_PI * rng_uniform(rng)
         theta = acos(mu)
     elif phase_type == PHASE_CONE:
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 14ef688..98de0bb 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -83,7 +83,9 @@ def _sample_directions(delegate, n):
         if abs(g) < 1e-12:
             return _sample_directions(isotropic, n)
         s = 2 * np.random.uniform(0, 1, n) - 1
-        mu = (1 + g * g - ((1 - g * g) / (1 + g * s)) ** 2) / (2 * g)
+        # Same expression as pvtrace.material.utils.henyey_greenstein
+        t = (1 - g * g) / (1 + g * s)
+        mu = np.clip(0.5 * (g + (s + g) / (1 + g * s) * (1 + t)), -1.0, 1.0)
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(np.arccos(mu), phi)
     return None
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 9b04caa..a77a87b 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -120,7 +120,11 @@ def henyey_greenstein(g=0.0) -> numpy.ndarray:
         return isotropic()
     p = np.random.uniform(0, 1)
     s = 2 * p - 1
-    mu = 1 / (2 * g) * (1 + g ** 2 - ((1 - g ** 2) / (1 + g * s)) ** 2)
+    # Arranged so that nothing cancels for small g; rounding must not take
+    # mu outside the domain of arccos.
+    t = (1 - g ** 2) / (1 + g * s)
+    mu = 0.5 * (g + (s + g) / (1 + g * s) * (1 + t))
+    mu = np.clip(mu, -1.0, 1.0)
     phi = 2 * np.pi * np.random.uniform()
     theta = np.arccos(mu)
     coords = spherical_to_cart(theta, phi)
-- 
2.43.0


From 191d0e47f64bb6905aa8cd5ff66839e4931b1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 41/77] fix: equal media reflect grazing photons, refraction is
 nan at the critical angle

---
 pvtrace/engine/_kernel.pyx | 11 ++++++++---
 pvtrace/material/utils.py  |  8 ++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 5b738b4..d716d78 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -417,12 +417,15 @@ cdef inline void local_normal(SceneT* S, int node, double* p, double* out) noexc
 # Optics
 
 cdef inline double fresnel_reflectivity(double angle, double n1, double n2) noexcept nogil:
-    cdef double c, s, k, rs1, rs2, rs, rp1, rp2, rp
+    cdef double c, s, k, k2, rs1, rs2, rs, rp1, rp2, rp
     if n2 < n1 and angle > asin(n2 / n1):
         return 1.0
     c = cos(angle)
     s = sin(angle)
-    k = sqrt(1.0 - (n1 / n2 * s) ** 2)
+    # Same as 1 - (n1 / n2 * s) ** 2 but accurate at grazing incidence, and
+    # rounding must not make it negative at the critical angle.
+    k2 = c * c + (1.0 - (n1 / n2) ** 2) * s * s
+    k = sqrt(k2) if k2 > 0.0 else 0.0
     rs1 = n1 * c - n2 * k
     rs2 = n1 * c + n2 * k
     rs = (rs1 / rs2) ** 2
@@ -450,7 +453,9 @@ cdef inline void fresnel_refract(double* d, double* normal, double n1, double n2
     """`normal` must already be flipped to point along the ray direction."""
     cdef double n = n1 / n2
     cdef double dd = dot3(d, normal)
-    cdef double c = sqrt(1.0 - n * n * (1.0 - dd * dd))
+    # Same as 1 - n * n * (1 - dd * dd), see fresnel_reflectivity
+    cdef double c2 = n * n * dd * dd + 1.0 - n * n
+    cdef double c = sqrt(c2) if c2 > 0.0 else 0.0
     cdef double sign = 1.0
     cdef int i
     if dd < 0.0:
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index a77a87b..63fc574 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -11,7 +11,9 @@ def fresnel_reflectivity(angle, n1, n2):
         return 1.0
     c = np.cos(angle)
     s = np.sin(angle)
-    k = np.sqrt(1 - (n1 / n2 * s) ** 2)
+    # Same as 1 - (n1 / n2 * s) ** 2 but accurate at grazing incidence, and
+    # rounding must not make it negative at the critical angle.
+    k = np.sqrt(max(c ** 2 + (1 - (n1 / n2) ** 2) * s ** 2, 0.0))
     Rs1 = n1 * c - n2 * k
     Rs2 = n1 * c + n2 * k
     Rs = (Rs1 / Rs2) ** 2
@@ -37,7 +39,9 @@ def fresnel_refraction(direction, normal, n1, n2):
     normal = np.array(normal)
     n = n1 / n2
     dot = np.dot(vector, normal)
-    c = np.sqrt(1 - n ** 2 * (1 - dot ** 2))
+    # Same as 1 - n ** 2 * (1 - dot ** 2) but accurate at grazing incidence,
+    # and rounding must not make it negative at the critical angle.
+    c = np.sqrt(max((n * dot) ** 2 + 1 - n ** 2, 0.0))
     sign = 1
     if dot < 0.0:
         sign = -1
-- 
2.43.0


From 893a317f35cca777e0a358ff4a9ecfe147a220e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 42/77] fix: a light asked for no particular number of photons
 emits none

---
 pvtrace/light/light.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pvtrace/light/light.py b/pvtrace/light/light.py
index f0df3ea..1a3acf1 100644
--- a/pvtrace/light/light.py
+++ b/pvtrace/light/light.py
@@ -242,8 +242,6 @@ class Light(object):
             The maximum number of rays this light source will generate. If set to
         None then the light will generate until manually terminated.
         """
-        if num_rays is None or num_rays == 0:
-            return
         count = 0
         while True:
             count += 1
-- 
2.43.0


From dfc5d72b2a75e1cc478900de9ead3536848a6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 43/77] fix: LSC cannot add scatterers

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..e78ffc3 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.scene.node import Node
-- 
2.43.0


From e6545ecb9a42e1842484a6efdd43c57ac1395151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 44/77] fix: LSC forgets the wavelength range it is given

---
 pvtrace/device/lsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index e78ffc3..4648613 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -95,7 +95,8 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
+        self.wavelength_range = wavelength_range
 
         self.size = size  # centimetres
         self.n0 = n0
-- 
2.43.0


From 3dfaa3cbe2f8069fd7c22839a33f0d8bbb85db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 45/77] fix: LSC results need DataFrame.append, which pandas no
 longer has

---
 pvtrace/device/lsc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4648613..d7c2afc 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -380,22 +380,23 @@ class LSC(object):
     def _make_dataframe(self):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        rows = []
 
         # Rays entering the scene
         for ray, event in self._store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
         # Rays exiting the scene
         for ray, event in self._store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
+        df = pd.DataFrame(rows)
         self._df = df
         return df
 
-- 
2.43.0


From 139396ceae1080add75217b6231314a379622f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 46/77] fix: LSC can be simulated only once, and reports only
 the first simulation

---
 pvtrace/device/lsc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index d7c2afc..c512e11 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -342,7 +342,8 @@ class LSC(object):
         scene = self._scene
 
         # Simulate can be called multiple time to append rays to the store
-        if self._store is None:
+        store = self._store
+        if store is None:
             store = {"entrance_rays": [], "exit_rays": []}
 
         vis = self._renderer
@@ -369,6 +370,7 @@ class LSC(object):
                 progress(count)
 
         self._store = store
+        self._counts = None
         print("Tracing finished.")
         print("Preparing results.")
         df = self._make_dataframe()
-- 
2.43.0


From 3339d9869a86b07f5502aa255440a6e3585fd1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 47/77] fix: LSC does not store photons which are lost

---
 pvtrace/device/lsc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index c512e11..715894f 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -352,9 +352,12 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
+            if events[-1] == Event.KILL:
                 # final event is a lost store path information at final event
                 store["exit_rays"].append((rays[-1], events[-1]))
+            elif events[-1] in (Event.NONRADIATIVE, Event.REACT):
+                # ray is lost where it was absorbed, the penultimate event
+                store["exit_rays"].append((rays[-2], events[-2]))
             elif events[-1] == Event.EXIT:
                 # final event hits the world node. Store path information at
                 # penultimate location
-- 
2.43.0


From 79ccfbdf3f51e43e482a3288f61e0a404dfdc38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 48/77] fix: LSC labels the near facet far and the far facet
 near

---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 715894f..4ff7098 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -454,8 +454,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From 877b790bd4d5e37ad6689252f832fed690c266c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 49/77] fix: specular air gap mirror of the LSC lets photons
 through

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4ff7098..1248b62 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -73,7 +73,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From 082b1c33166a4d8a2d5148c3a88d0def91a51e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 50/77] fix: LSC attributes photons which are not on the slab
 to its facets

---
 pvtrace/device/lsc.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 1248b62..4d767c4 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -452,12 +452,23 @@ class LSC(object):
         xmin, xmax = -0.5 * length, 0.5 * length
         ymin, ymax = -0.5 * width, 0.5 * width
         zmin, zmax = -0.5 * height, 0.5 * height
-        df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
-        df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
-        df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
+        # The planes of the facets extend beyond the slab
+        on_slab = (
+            (df["position_x"].abs() <= xmax + 1e-9)
+            & (df["position_y"].abs() <= ymax + 1e-9)
+            & (df["position_z"].abs() <= zmax + 1e-9)
+        )
+
+        def at(column, value):
+            # Same tolerance as the box; lost inside is not on the surface
+            return on_slab & np.isclose(df[column], value, rtol=0.0, atol=2 * EPS_ZERO)
+
+        df.loc[at("position_x", xmin), "facet"] = "left"
+        df.loc[at("position_x", xmax), "facet"] = "right"
+        df.loc[at("position_y", ymin), "facet"] = "near"
+        df.loc[at("position_y", ymax), "facet"] = "far"
+        df.loc[at("position_z", zmin), "facet"] = "bottom"
+        df.loc[at("position_z", zmax), "facet"] = "top"
         return df
 
     def _make_counts(self, df):
-- 
2.43.0


From d441537b992195c9a47b24879706585bcf9b19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 51/77] fix: LSC does not attribute photons which meet the air
 gap mirror last

---
 pvtrace/device/lsc.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 4d767c4..96d3f2d 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -347,6 +347,7 @@ class LSC(object):
             store = {"entrance_rays": [], "exit_rays": []}
 
         vis = self._renderer
+        half_size = 0.5 * np.array(self.size)
         count = 0
         for ray in scene.emit(n):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
@@ -359,9 +360,15 @@ class LSC(object):
                 # ray is lost where it was absorbed, the penultimate event
                 store["exit_rays"].append((rays[-2], events[-2]))
             elif events[-1] == Event.EXIT:
-                # final event hits the world node. Store path information at
-                # penultimate location
-                store["exit_rays"].append((rays[-2], events[-2]))
+                # final event hits the world node. Store path information where
+                # the ray was last on the slab (it can meet the mirror after that),
+                # or at the penultimate location if it never was
+                last = len(rays) - 2
+                for idx in range(last, 0, -1):
+                    if np.all(np.absolute(rays[idx].position) <= half_size + 1e-9):
+                        last = idx
+                        break
+                store["exit_rays"].append((rays[last], events[last]))
 
             # Update visualiser
             if vis:
-- 
2.43.0


From 8193e4ae09f5c5bf92f573ed8165dc53187db21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 52/77] fix: studio reads files named in a document from the
 current folder, not the document's

---
 pvtrace/studio/server.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..27306c2 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -44,8 +44,9 @@ class NoCacheStaticFiles(StaticFiles):
 class Studio:
     """Holds the current document and its parsed scene."""
 
-    def __init__(self, document=""):
+    def __init__(self, document="", directory=None):
         self.document = document
+        self.directory = directory or os.getcwd()
         self.scene = None
         self.spec = None
 
@@ -55,16 +56,18 @@ class Studio:
         if not isinstance(spec, dict):
             raise ValueError("Document is not a YAML mapping.")
 
-        # parse() validates against the JSON schema and reads from disk
+        # parse() validates against the JSON schema and reads from disk; files
+        # named in the document are relative to the folder of the document
         with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=os.getcwd()
+            "w", suffix=".yml", delete=False, dir=self.directory
         ) as fp:
-            fp.write(text)
             path = fp.name
-        try:
-            scene = parse_scene_file(path)
-        finally:
-            os.unlink(path)
+            try:
+                fp.write(text)
+                fp.flush()
+                scene = parse_scene_file(path)
+            finally:
+                os.unlink(path)
 
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
@@ -139,9 +142,11 @@ class Studio:
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
     text = ""
+    directory = None
     if document_path:
         text = Path(document_path).read_text()
-    studio = Studio(text)
+        directory = Path(document_path).resolve().parent
+    studio = Studio(text, directory)
 
     @app.get("/")
     async def index():
-- 
2.43.0


From 2b3d8f8c6d95c418979688abcb9edc1baf12b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 53/77] fix: studio applies documents it cannot show

---
 pvtrace/studio/server.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 27306c2..1881ec0 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -7,6 +7,7 @@ results (recorder tallies and sampled ray paths) over a websocket.
 """
 import asyncio
 import io
+import json
 import os
 import tempfile
 import time
@@ -71,16 +72,20 @@ class Studio:
 
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
+        # The edit is only accepted if the frontend can be told about it
+        payload = self.scene_payload(compiled, scene, spec)
+        json.dumps(payload, allow_nan=False)
+
         self.document = text
         self.scene = scene
         self.spec = spec
-        return self.scene_payload(compiled)
+        return payload
 
-    def scene_payload(self, compiled):
+    def scene_payload(self, compiled, scene, spec):
         """Geometry description for the three.js viewport."""
         from anytree import PreOrderIter
 
-        node_specs = self.spec.get("nodes", {}) if self.spec else {}
+        node_specs = spec.get("nodes", {}) if spec else {}
         nodes = []
         for i, name in enumerate(compiled.node_names):
             nodes.append(
@@ -96,21 +101,21 @@ class Studio:
                 }
             )
         lights = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             if node.light is not None:
-                matrix = np.asarray(node.transformation_to(self.scene.root))
+                matrix = np.asarray(node.transformation_to(scene.root))
                 lights.append({"name": node.name,
                                "matrix": matrix.T.ravel().tolist(),
                                "spec": node_specs.get(node.name, {})})
         recorders = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             auto_names = set()
             node_spec = node_specs.get(node.name, {})
             if node_spec.get("record"):
                 from pvtrace.cli.parse import auto_recorders
 
                 auto_names = set(auto_recorders(node.name, node_spec))
-            explicit = set((self.spec.get("recorders") or {})) if self.spec else set()
+            explicit = set((spec.get("recorders") or {})) if spec else set()
             for recorder in getattr(node, "recorders", []):
                 histograms = []
                 for hist in recorder.histograms:
@@ -136,7 +141,7 @@ class Studio:
                             and recorder.name not in explicit,
                 })
         return {"nodes": nodes, "lights": lights, "recorders": recorders,
-                "spec": self.spec}
+                "spec": spec}
 
 
 def create_app(document_path=None):
-- 
2.43.0


From b2ee80a61efb21c1311187ee0485389d82687c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 54/77] fix: studio cannot set values inside nested lists

---
 pvtrace/studio/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 1881ec0..177cd8d 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -347,7 +347,7 @@ def _patch(studio, payload):
         target = data
         path = payload["path"]
         for key in path[:-1]:
-            if key not in target:
+            if isinstance(target, dict) and key not in target:
                 target[key] = {}
             target = target[key]
         target[path[-1]] = _flow(payload["value"])
-- 
2.43.0


From 29a0701a58bdc88027de6881d9649bf917d0d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 55/77] fix: studio writes numbers and names which are read
 back as something else

---
 pvtrace/studio/server.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 177cd8d..bce1978 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -313,8 +313,21 @@ SNIPPETS = {
 
 def _round_trip_yaml():
     from ruamel.yaml import YAML
+    from ruamel.yaml.representer import RoundTripRepresenter
+
+    class Representer(RoundTripRepresenter):
+        pass
+
+    # Numbers of edits; those already in the document are ScalarFloat. Scene
+    # files are read as YAML 1.1 where 1e-05 would be a string, not a number.
+    def represent_float(representer, value):
+        node = yaml.SafeDumper(io.StringIO()).represent_float(value)
+        return representer.represent_scalar(node.tag, node.value)
+
+    Representer.add_representer(float, represent_float)
 
     ryaml = YAML()
+    ryaml.Representer = Representer
     ryaml.preserve_quotes = True
     return ryaml
 
@@ -329,11 +342,19 @@ def _unique_name(existing, stem):
 def _flow(value):
     """Lists render inline ([x, y, z]) like hand-written scene files."""
     from ruamel.yaml.comments import CommentedSeq
+    from ruamel.yaml.scalarstring import DoubleQuotedScalarString
 
     if isinstance(value, list):
-        seq = CommentedSeq(value)
+        seq = CommentedSeq([_flow(item) for item in value])
         seq.fa.set_flow_style()
         return seq
+    if isinstance(value, dict):
+        return {_flow(key): _flow(item) for key, item in value.items()}
+    if type(value) is str:
+        # Quote names like yes or 1e5 which would be read as another type
+        tag = yaml.resolver.Resolver().resolve(yaml.ScalarNode, value, (True, False))
+        if tag != "tag:yaml.org,2002:str":
+            return DoubleQuotedScalarString(value)
     return value
 
 
@@ -348,9 +369,9 @@ def _patch(studio, payload):
         path = payload["path"]
         for key in path[:-1]:
             if isinstance(target, dict) and key not in target:
-                target[key] = {}
+                target[_flow(key)] = {}
             target = target[key]
-        target[path[-1]] = _flow(payload["value"])
+        target[_flow(path[-1])] = _flow(payload["value"])
 
     elif operation == "move":
         # World position from the viewport gizmo; location is relative
@@ -384,7 +405,7 @@ def _patch(studio, payload):
         recorders = data.setdefault("recorders", {})
         name = _unique_name(recorders, f"{node}-escaping")
         recorders[name] = {
-            "node": node,
+            "node": _flow(node),
             "event": "escaping",
             "histograms": {"wavelength": [400, 900, 80]},
         }
@@ -413,7 +434,7 @@ def _patch(studio, payload):
             bins_u = max(10, min(60, int(size[u_axis] * 10)))
             bins_v = max(10, min(60, int(size[v_axis] * 10)))
             recorders[name] = {
-                "node": node,
+                "node": _flow(node),
                 "event": "escaping",
                 "facet": _flow(facet),
                 "histograms": {
@@ -452,7 +473,7 @@ def _patch(studio, payload):
         for key, value in payload["changes"].items():
             if key not in ("event", "facet", "atol"):
                 raise ValueError(f"Cannot update recorder key {key!r}")
-            recorders[name][key] = _flow(value) if isinstance(value, list) else value
+            recorders[name][key] = _flow(value)
 
     elif operation == "delete-recorder":
         recorders = data.setdefault("recorders", {})
@@ -500,7 +521,7 @@ def _recorder_to_spec(studio, name):
                 else:
                     histograms[hist.prop] = _flow(
                         [hist.start, hist.stop, hist.bins])
-            spec = {"node": node.name, "event": recorder.event}
+            spec = {"node": _flow(node.name), "event": recorder.event}
             if recorder.facet is not None:
                 spec["facet"] = _flow(list(recorder.facet))
             spec["histograms"] = histograms
-- 
2.43.0


From d8ce8b4af052e698194c60882edda629bc5b0be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 56/77] fix: studio cannot delete the last commented recorder
 or component

---
 pvtrace/studio/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index bce1978..4537e10 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -497,6 +497,11 @@ def _patch(studio, payload):
     else:
         raise ValueError(f"Unknown operation {operation!r}")
 
+    for section in ("components", "recorders"):
+        # The comments of an emptied mapping are not valid around its {}
+        if data.get(section) == {}:
+            data[section] = {}
+
     buffer = io.StringIO()
     ryaml.dump(data, buffer)
     return buffer.getvalue()
-- 
2.43.0


From aaac601892a192803d458a55aa3daddb48fa4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 57/77] fix: simulate_stream refuses a bundle smaller than one
 ray

A bundle of zero rays never advanced and the stream never ended.
---
 pvtrace/engine/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index dcc7bdd..8fd9c27 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -259,6 +259,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     same seed. Accumulate recorder tallies across bundles by summing
     the `rec_*` arrays.
     """
+    if bundle < 1:
+        raise ValueError("bundle must be at least one ray.")
     if seed is None:
         seed = np.random.randint(0, 2 ** 31 - 1)
     traced = 0
-- 
2.43.0


From 7b5fa5778bf2d7fcf1d6e3efd3c49c63ff983cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 58/77] fix: studio runs do not revive or interleave with an
 earlier run

All runs of a connection shared one stop flag: starting a run cleared the
flag of the run just stopped, which then carried on alongside it.
---
 pvtrace/studio/server.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 4537e10..f4b3332 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -208,10 +208,16 @@ def create_app(document_path=None):
     @app.websocket("/ws")
     async def websocket(ws: WebSocket):
         await ws.accept()
-        stop = {"flag": False}
-        task = None
+        runs = {}  # task -> its stop flag
+        turn = asyncio.Lock()
 
-        async def run(params):
+        async def run(params, stop):
+            # One run at a time: the previous one, which has been told to
+            # stop, announces its end before this one announces its start
+            async with turn:
+                await trace(params, stop)
+
+        async def trace(params, stop):
             loop = asyncio.get_running_loop()
             num_rays = int(params.get("rays", 100000))
             bundle = int(params.get("bundle", 25000))
@@ -236,7 +242,7 @@ def create_app(document_path=None):
                 studio.scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
-            while True:
+            while not stop["flag"]:
                 item = await loop.run_in_executor(None, next, stream, None)
                 if item is None or stop["flag"]:
                     break
@@ -265,6 +271,10 @@ def create_app(document_path=None):
             await ws.send_json({"type": "done",
                                 "elapsed": time.perf_counter() - tic})
 
+        def stop_all():
+            for stop in runs.values():
+                stop["flag"] = True
+
         try:
             while True:
                 message = await ws.receive_json()
@@ -274,13 +284,16 @@ def create_app(document_path=None):
                         await ws.send_json({"type": "error",
                                             "message": "Apply a scene first."})
                         continue
-                    stop["flag"] = False
-                    task = asyncio.create_task(run(message))
+                    stop_all()
+                    stop = {"flag": False}
+                    task = asyncio.create_task(run(message, stop))
+                    runs[task] = stop
+                    task.add_done_callback(runs.pop)
                 elif command == "stop":
-                    stop["flag"] = True
+                    stop_all()
         except WebSocketDisconnect:
-            stop["flag"] = True
-            if task:
+            stop_all()
+            for task in list(runs):
                 task.cancel()
 
     app.mount("/static", NoCacheStaticFiles(directory=STATIC), name="static")
-- 
2.43.0


From cc3045c1bb1df3ac23cdb01e46650afe1751f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 59/77] fix: a studio run traces the scene it was started with

An edit arriving between the start of a run and its first bundle mixed two
scenes in one run.
---
 pvtrace/studio/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index f4b3332..d3653a8 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -225,7 +225,9 @@ def create_app(document_path=None):
             record_every = int(params.get("record_every", 1000))
             max_paths = int(params.get("max_paths", 200))
 
-            compiled = engine.compile_scene(studio.scene)
+            # The document may be edited during the run
+            scene = studio.scene
+            compiled = engine.compile_scene(scene)
             hist_meta = _histogram_meta(compiled)
             await ws.send_json({"type": "started", "total": num_rays,
                                 "histograms": hist_meta})
@@ -239,7 +241,7 @@ def create_app(document_path=None):
             tic = time.perf_counter()
 
             stream = engine.simulate_stream(
-                studio.scene, num_rays, bundle=bundle, seed=seed,
+                scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
             while not stop["flag"]:
-- 
2.43.0


From 0b48f8c86602d78908dbbcea4460182158d5eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 60/77] fix: report errors of a studio run to the client

They ended the task silently and the run never finished for the client.
---
 pvtrace/studio/server.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index d3653a8..948ff78 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -215,7 +215,13 @@ def create_app(document_path=None):
             # One run at a time: the previous one, which has been told to
             # stop, announces its end before this one announces its start
             async with turn:
-                await trace(params, stop)
+                try:
+                    await trace(params, stop)
+                except WebSocketDisconnect:
+                    pass
+                except Exception as exception:
+                    await ws.send_json({"type": "error",
+                                        "message": str(exception)})
 
         async def trace(params, stop):
             loop = asyncio.get_running_loop()
-- 
2.43.0


From 34ae1dc7e8884506ee4024aeea77d3e1262e9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 61/77] fix: node names containing a slash are displayed in
 place

Meshcat nests objects at slashes, so such a node was moved by the transform
of another one.
---
 pvtrace/scene/renderer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f9df80..26d90ea 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -59,7 +59,8 @@ class MeshcatRenderer(object):
         # Using a dot here as a quick fix to _avoid_ Meshcat automatically
         # transforming the parent coordinate system. If you use `"/"` then
         # you would get that behaviour.
-        pathname = " | ".join([x.name for x in node.path])
+        # The same goes for names which contain it.
+        pathname = " | ".join([x.name.replace("/", "\u2215") for x in node.path])
         if node.geometry is not None:
             # Transforming everything to global
             self.add_geometry(
-- 
2.43.0


From 96b8d39cbca19a1aa8803306849b7cc72dcd9db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 62/77] fix: renderer accepts lines through points with integer
 coordinates

---
 pvtrace/scene/renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 26d90ea..de7e330 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -135,7 +135,7 @@ class MeshcatRenderer(object):
         vis = self.vis
         line = (start, end)
         # self._will_add_expendable_to_scene(line)
-        vertices = np.column_stack(line)
+        vertices = np.column_stack(line).astype(float)
         assert vertices.shape[0] == 3  # easy to get this wrong
         identifier = self.get_next_identifer()
         vis[identifier].set_object(
@@ -173,7 +173,7 @@ class MeshcatRenderer(object):
         """
         vis = self.vis
         # self._will_add_expendable_to_scene(vertices)
-        vertices = np.array(vertices)
+        vertices = np.array(vertices, dtype=float)
         assert vertices.shape[0] == 3  # easy to get this wrong
         identifier = self.get_next_identifer()
         vis[identifier].set_object(
-- 
2.43.0


From 740a5d21b99c47a31c1b885e85bed44f0a2c44a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 63/77] fix: absorbed photons are drawn up to where they were
 absorbed

The last segment of every history was replaced by one of fixed length; only
rays leaving the scene continue to nowhere.
---
 pvtrace/scene/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index de7e330..64cd4cd 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -299,7 +299,7 @@ class MeshcatRenderer(object):
             start = start_ray.position
             end = end_ray.position
             if world_segment == "short":
-                if end_ray == history[-1][0]:
+                if end_part[1] == Event.EXIT:
                     end = (
                         np.array(start_ray.position)
                         + np.array(start_ray.direction) * short_length
-- 
2.43.0


From 0623f76b26339f2fbae38feda94a2f5b5723419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 64/77] fix: baubles are removed together with their history

---
 pvtrace/scene/renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 64cd4cd..651fbb4 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -310,14 +310,14 @@ class MeshcatRenderer(object):
             if baubles:
                 event = start_part[1]
                 if event in {Event.TRANSMIT}:
-                    baubid = self.get_next_identifer()
-                    vis[f"exit/{baubid}"].set_object(
+                    baubid = f"exit/{self.get_next_identifer()}"
+                    vis[baubid].set_object(
                         g.Sphere(bauble_radius),
                         g.MeshBasicMaterial(
                             color=colour, transparency=False, opacity=1
                         ),
                     )
-                    vis[f"exit/{baubid}"].set_transform(tf.translation_matrix(start))
+                    vis[baubid].set_transform(tf.translation_matrix(start))
 
                     ids.append(baubid)
 
-- 
2.43.0


From 7082b8fd104ac1dd5156f9f67f7610dbe88cec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:01 +0000
Subject: [PATCH 65/77] fix: renderer displays the number of histories asked
 for

It displayed one fewer (none when asked for one) and failed when asked for
none.
---
 pvtrace/scene/renderer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 651fbb4..38af238 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -39,7 +39,7 @@ class MeshcatRenderer(object):
         self.vis = meshcat.Visualizer(zmq_url=zmq_url)
         if open_browser:
             self.vis.open()
-        self.ray_histories = deque(maxlen=max_histories)
+        self.ray_histories = deque()
         self.max_histories = max_histories
         self.added_index = 0
         self.wireframe = wireframe
@@ -322,7 +322,8 @@ class MeshcatRenderer(object):
                     ids.append(baubid)
 
         self.ray_histories.append(ids)
-        if len(self.ray_histories) == self.max_histories:
+        maximum = self.max_histories
+        while maximum is not None and len(self.ray_histories) > maximum:
             ids_to_remove = self.ray_histories.popleft()
             for id_to_remove in ids_to_remove:
                 self.remove_object(id_to_remove)
-- 
2.43.0


From 2d801a175c0c1db7aa11da57161f7c6e58cd9b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 66/77] fix: studio page changes the document by one request at
 a time

Replies which overtook one another left the page on an older document than
the server, and Apply during an inspector edit undid the edit.
---
 pvtrace/studio/static/app.js | 60 ++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 2d7d81a..86d1ce6 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -114,15 +114,12 @@ gizmo.addEventListener("objectChange", async () => {
   const now = performance.now();
   if (now - lastRealtime < 150) return;
   lastRealtime = now;
-  await fetch("/api/patch", {
-    method: "POST",
-    headers: { "Content-Type": "application/json" },
-    body: JSON.stringify({
-      op: "move",
-      node: gizmo.object.userData.name,
-      world_position: gizmo.object.position.toArray(),
-    }),
-  });
+  const move = {
+    op: "move",
+    node: gizmo.object.userData.name,
+    world_position: gizmo.object.position.toArray(),
+  };
+  await inTurn(() => sendPatch(move));
   startRun();
 });
 scene3.add(gizmo);
@@ -1166,14 +1163,31 @@ docToggle.addEventListener("click", () => {
   applyDocumentVisibility();
 });
 
+// The document is changed by one request at a time: a reply which overtakes
+// another would leave an older document on the page than on the server, and
+// a request made from an older document would undo the previous one.
+let turn = Promise.resolve();
+
+function inTurn(job) {
+  const result = turn.then(job);
+  turn = result.catch(() => {});
+  return result;
+}
+
 async function loadDocument() {
-  const response = await fetch("/api/document");
-  const payload = await response.json();
-  setDocumentText(payload.text);
-  if (payload.text.trim()) applyDocument();
+  await inTurn(async () => {
+    const response = await fetch("/api/document");
+    const payload = await response.json();
+    setDocumentText(payload.text);
+    if (payload.text.trim()) await applyText();
+  });
+}
+
+function applyDocument() {
+  return inTurn(applyText);
 }
 
-async function applyDocument() {
+async function applyText() {
   const response = await fetch("/api/document", {
     method: "PUT",
     headers: { "Content-Type": "application/json" },
@@ -1191,12 +1205,20 @@ async function applyDocument() {
   return true;
 }
 
-async function patch(operation) {
-  const response = await fetch("/api/patch", {
+function sendPatch(operation) {
+  return fetch("/api/patch", {
     method: "POST",
     headers: { "Content-Type": "application/json" },
     body: JSON.stringify(operation),
   });
+}
+
+function patch(operation) {
+  return inTurn(() => applyPatch(operation));
+}
+
+async function applyPatch(operation) {
+  const response = await sendPatch(operation);
   const payload = await response.json();
   if (payload.error) {
     docStatus.textContent = payload.error;
@@ -1217,13 +1239,13 @@ async function patch(operation) {
 
 document.getElementById("apply").addEventListener("click", applyDocument);
 
-document.getElementById("save").addEventListener("click", async () => {
-  if (!(await applyDocument())) return;
+document.getElementById("save").addEventListener("click", () => inTurn(async () => {
+  if (!(await applyText())) return;
   const response = await fetch("/api/save", { method: "POST" });
   const payload = await response.json();
   docStatus.textContent = payload.error ? payload.error : "saved";
   docStatus.className = payload.error ? "err" : "";
-});
+}));
 
 // Drop a CSV (e.g. absorption data) onto the editor to save it next to
 // the scene file, then reference it with `spectrum: file: <name>`.
-- 
2.43.0


From 9473fde03aa53cb8ab988c013d68376286a50946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 67/77] fix: inspector edits keep the text typed but not yet
 applied

The reply to an inspector edit replaced the editor's text, and with it
everything typed since the last Apply.
---
 pvtrace/studio/static/app.js | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 86d1ce6..f544284 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -1125,8 +1125,12 @@ const cm = window.CodeMirror.fromTextArea(document.getElementById("editor"), {
 });
 let settingText = false;
 
+// The text which the server has
+let syncedText = "";
+
 function setDocumentText(text) {
   settingText = true;
+  syncedText = text;
   const scroll = cm.getScrollInfo();
   cm.setValue(text);
   cm.scrollTo(scroll.left, scroll.top);
@@ -1188,10 +1192,11 @@ function applyDocument() {
 }
 
 async function applyText() {
+  const text = cm.getValue();
   const response = await fetch("/api/document", {
     method: "PUT",
     headers: { "Content-Type": "application/json" },
-    body: JSON.stringify({ text: cm.getValue() }),
+    body: JSON.stringify({ text }),
   });
   const payload = await response.json();
   if (payload.error) {
@@ -1201,6 +1206,7 @@ async function applyText() {
   }
   docStatus.textContent = "scene ok";
   docStatus.className = "";
+  syncedText = text;
   renderScene(payload.scene);
   return true;
 }
@@ -1218,8 +1224,17 @@ function patch(operation) {
 }
 
 async function applyPatch(operation) {
-  const response = await sendPatch(operation);
-  const payload = await response.json();
+  // The edit is made to what the editor shows, and its result replaces the
+  // text: nothing must be typed in between
+  cm.setOption("readOnly", true);
+  let payload;
+  try {
+    if (cm.getValue() !== syncedText && !(await applyText())) return false;
+    const response = await sendPatch(operation);
+    payload = await response.json();
+  } finally {
+    cm.setOption("readOnly", false);
+  }
   if (payload.error) {
     docStatus.textContent = payload.error;
     docStatus.className = "err";
-- 
2.43.0


From 07faffe0983354d1245d86e125c9f4ec2d725b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 68/77] fix: inspector number fields keep the components which
 were not edited

Editing one component of a vector rounded the others to six decimals.
---
 pvtrace/studio/static/app.js | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index f544284..af2130f 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -565,8 +565,12 @@ function numberField(label, value, onCommit, step = 0.1) {
     input.type = "number";
     input.step = step;
     input.value = Number((+v).toFixed(6));
+    const shown = input.value;
+    // Rounded for display only: what is not edited stays as it is
     input.addEventListener("change", () =>
-      onCommit(inputs.map((i) => parseFloat(i.value) || 0)));
+      onCommit(inputs.map((i) => i.entered())));
+    input.entered = () =>
+      (input.value === shown ? +v : parseFloat(input.value) || 0);
     inputs.push(input);
     row.appendChild(input);
   }
-- 
2.43.0


From c6cea92c766343536100abb37efa9bca7688024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 69/77] fix: dropped gizmo tells the server wherever the
 document has another position

A real-time drag back to its start, or one during which the scene was drawn
anew, left the page and the document with different positions.
---
 pvtrace/studio/static/app.js | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index af2130f..fc581b1 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -89,20 +89,21 @@ function syncNodeVisuals(name, source) {
 // Translation gizmo; writes back to the document on drop
 const gizmo = new TransformControls(camera, renderer.domElement);
 gizmo.setMode("translate");
-let dragStart = null;
+let dragSent = false; // the server was told of a position during the drag
 gizmo.addEventListener("dragging-changed", (event) => {
   controls.enabled = !event.value;
-  if (event.value && gizmo.object) {
-    dragStart = gizmo.object.position.clone();
-  } else if (!event.value && gizmo.object && dragStart) {
-    if (gizmo.object.position.distanceTo(dragStart) > 1e-6) {
+  if (event.value) {
+    dragSent = false;
+  } else if (gizmo.object) {
+    // Where the document has the object, which may have changed meanwhile
+    const known = new THREE.Vector3().fromArray(gizmo.object.userData.matrix, 12);
+    if (dragSent || gizmo.object.position.distanceTo(known) > 1e-6) {
       patch({
         op: "move",
         node: gizmo.object.userData.name,
         world_position: gizmo.object.position.toArray(),
       });
     }
-    dragStart = null;
   }
 });
 // Real-time mode: re-run while dragging without refreshing the UI
@@ -114,6 +115,7 @@ gizmo.addEventListener("objectChange", async () => {
   const now = performance.now();
   if (now - lastRealtime < 150) return;
   lastRealtime = now;
+  dragSent = true;
   const move = {
     op: "move",
     node: gizmo.object.userData.name,
-- 
2.43.0


From 370fa4143264577537089790edc0b5944aaf72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 70/77] fix: recorder read-outs follow every bundle of a run

---
 pvtrace/studio/static/app.js | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index fc581b1..0bf810e 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -454,6 +454,7 @@ const fieldsDiv = document.getElementById("inspector-fields");
 const actionsDiv = document.getElementById("inspector-actions");
 const binInfo = document.getElementById("bin-info");
 let inspectorPlots = [];
+let inspectorStats = [];
 
 for (const button of document.querySelectorAll("#segments button")) {
   button.addEventListener("click", () => {
@@ -530,6 +531,7 @@ function renderInspector() {
   fieldsDiv.innerHTML = "";
   actionsDiv.innerHTML = "";
   inspectorPlots = [];
+  inspectorStats = [];
   if (lastScene && !lastScene.spec) {
     hint("The studio server is older than this page — restart "
       + "pvtrace-cli studio and reload.");
@@ -873,10 +875,7 @@ function buildRecorderPlots(recorder) {
     statsHint.textContent = "run the simulation to collect statistics";
     return;
   }
-  statsHint.textContent =
-    `${stats.rays.toLocaleString()} rays · ${stats.crossings.toLocaleString()} crossings`
-    + ` · ⟨λ⟩ ${stats.mean_wavelength.toFixed(1)} nm`
-    + ` · ⟨θ⟩ ${(stats.mean_angle * 180 / Math.PI).toFixed(1)}°`;
+  inspectorStats.push({ element: statsHint, name: recorder.name });
 
   meta.histograms.forEach((histMeta, index) => {
     const label = document.createElement("div");
@@ -906,6 +905,14 @@ function buildRecorderPlots(recorder) {
 }
 
 function drawInspectorPlots() {
+  for (const { element, name } of inspectorStats) {
+    const stats = latest[name];
+    if (!stats) continue;
+    element.textContent =
+      `${stats.rays.toLocaleString()} rays · ${stats.crossings.toLocaleString()} crossings`
+      + ` · ⟨λ⟩ ${stats.mean_wavelength.toFixed(1)} nm`
+      + ` · ⟨θ⟩ ${(stats.mean_angle * 180 / Math.PI).toFixed(1)}°`;
+  }
   for (const plot of inspectorPlots) {
     const meta = histogramMeta[plot.name];
     const data = latest[plot.name];
-- 
2.43.0


From 5402d959f7d1d15128c03cdda39e897408f71e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 71/77] fix: heatmaps are painted from the histogram of the run
 which they are of

---
 pvtrace/studio/static/app.js | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 0bf810e..66102ce 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -164,9 +164,9 @@ function buildRecorderOverlay(recorder, nodePayload) {
   const size = nodePayload.params;
 
   const heatIndex = recorder.histograms.findIndex((h) => h.kind === "heatmap");
+  const heat = heatIndex >= 0 ? recorder.histograms[heatIndex] : null;
   let uAxis, vAxis;
-  if (heatIndex >= 0) {
-    const heat = recorder.histograms[heatIndex];
+  if (heat) {
     uAxis = AXIS_INDEX[heat.prop_a];
     vAxis = AXIS_INDEX[heat.prop_b];
   }
@@ -220,7 +220,7 @@ function buildRecorderOverlay(recorder, nodePayload) {
   new THREE.Matrix4().fromArray(nodePayload.matrix)
     .decompose(mesh.position, mesh.quaternion, mesh.scale);
   mesh.userData = { kind: "recorder", ...recorder };
-  recorderOverlays[recorder.name] = { mesh, canvas, texture, heatIndex };
+  recorderOverlays[recorder.name] = { mesh, canvas, texture, heat };
   return mesh;
 }
 
@@ -1066,6 +1066,16 @@ function drawHeatmapInto(ctx, width, height, values, shape) {
 let histogramMeta = {};
 let latest = {};
 
+// The run may be of a document in which the recorder had other histograms
+// than in the one on display
+function runHeatIndex(name, heat) {
+  const spans = (edges, [low, high, bins]) => edges.length === bins + 1
+    && Math.abs(edges[0] - low) < 1e-9 && Math.abs(edges[bins] - high) < 1e-9;
+  return (histogramMeta[name]?.histograms || []).findIndex((h) =>
+    h.kind === "heatmap" && h.prop_a === heat.prop_a && h.prop_b === heat.prop_b
+    && spans(h.edges_a, heat.range_a) && spans(h.edges_b, heat.range_b));
+}
+
 function refreshHeatmaps() {
   heatmapMax = 1;
   for (const data of Object.values(latest)) {
@@ -1078,8 +1088,9 @@ function refreshHeatmaps() {
   }
   for (const [name, data] of Object.entries(latest)) {
     const overlay = recorderOverlays[name];
-    if (overlay && overlay.heatIndex >= 0 && data.histograms[overlay.heatIndex]) {
-      const entry = data.histograms[overlay.heatIndex];
+    const index = overlay && overlay.heat ? runHeatIndex(name, overlay.heat) : -1;
+    if (index >= 0) {
+      const entry = data.histograms[index];
       drawHeatmapInto(overlay.canvas.getContext("2d"), 256, 256,
         entry.values, entry.shape);
       overlay.texture.needsUpdate = true;
-- 
2.43.0


From cb9fe9623812483b3241cfc7523acb962c611380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:14 +0000
Subject: [PATCH 72/77] fix: heatmaps are painted on a face where their bins
 are

---
 pvtrace/studio/static/app.js | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 66102ce..a8bc1a2 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -163,16 +163,20 @@ function buildRecorderOverlay(recorder, nodePayload) {
   const sign = Math.sign(recorder.facet[axis]);
   const size = nodePayload.params;
 
-  const heatIndex = recorder.histograms.findIndex((h) => h.kind === "heatmap");
-  const heat = heatIndex >= 0 ? recorder.histograms[heatIndex] : null;
-  let uAxis, vAxis;
+  // Only a heatmap over both directions of the face has a place on it, and
+  // that is where its bins are: they need not cover the face.
+  let [uAxis, vAxis] = [0, 1, 2].filter((i) => i !== axis);
+  const heat = recorder.histograms.find((h) => h.kind === "heatmap"
+    && [uAxis, vAxis].includes(AXIS_INDEX[h.prop_a])
+    && [uAxis, vAxis].includes(AXIS_INDEX[h.prop_b])
+    && h.prop_a !== h.prop_b);
+  let uRange = [-size[uAxis] / 2, size[uAxis] / 2];
+  let vRange = [-size[vAxis] / 2, size[vAxis] / 2];
   if (heat) {
     uAxis = AXIS_INDEX[heat.prop_a];
     vAxis = AXIS_INDEX[heat.prop_b];
-  }
-  if (uAxis === undefined || vAxis === undefined
-      || uAxis === axis || vAxis === axis) {
-    [uAxis, vAxis] = [0, 1, 2].filter((i) => i !== axis);
+    uRange = heat.range_a;
+    vRange = heat.range_b;
   }
 
   const stackKey = `${recorder.node}:${axis}:${sign}`;
@@ -185,8 +189,8 @@ function buildRecorderOverlay(recorder, nodePayload) {
   for (const [su, sv] of [[-1, -1], [1, -1], [1, 1], [-1, 1]]) {
     const point = [0, 0, 0];
     point[axis] = normalOffset;
-    point[uAxis] = su * size[uAxis] / 2;
-    point[vAxis] = sv * size[vAxis] / 2;
+    point[uAxis] = uRange[(su + 1) / 2];
+    point[vAxis] = vRange[(sv + 1) / 2];
     positions.push(...point);
     uvs.push((su + 1) / 2, (sv + 1) / 2);
   }
@@ -199,7 +203,7 @@ function buildRecorderOverlay(recorder, nodePayload) {
   geometry.computeVertexNormals();
 
   let material, canvas = null, texture = null;
-  if (heatIndex >= 0) {
+  if (heat) {
     canvas = document.createElement("canvas");
     canvas.width = 256; canvas.height = 256;
     const ctx = canvas.getContext("2d");
-- 
2.43.0


From 635e1ac963408f4ba8805b960d5ddd021d7ba6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 73/77] fix: isolating an object ends when the object is no
 longer in the scene

---
 pvtrace/studio/static/app.js | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index a8bc1a2..dc63e7c 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -316,9 +316,10 @@ function renderScene(payload) {
 // ----------------------------------------------------------------------
 // Information layers (weather-app style)
 
-let isolateName = null;
-
 function applyLayer() {
+  const wanted = document.getElementById("isolate").value.trim();
+  const isolateName = (lastScene?.nodes || []).some((n) => n.name === wanted)
+    ? wanted : null;
   const event = document.getElementById("layer-event").value;
   for (const overlay of Object.values(recorderOverlays)) {
     const recorder = overlay.mesh.userData;
@@ -340,12 +341,7 @@ function applyLayer() {
 }
 
 document.getElementById("layer-event").addEventListener("change", applyLayer);
-document.getElementById("isolate").addEventListener("input", (event) => {
-  const value = event.target.value.trim();
-  isolateName = (lastScene?.nodes || []).some((n) => n.name === value)
-    ? value : null;
-  applyLayer();
-});
+document.getElementById("isolate").addEventListener("input", applyLayer);
 
 // ----------------------------------------------------------------------
 // Selection: one model for the whole app. The inspector shows the
-- 
2.43.0


From ea04710b7ccea72f734900fe3ede29d58495226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 74/77] fix: rays and paths are run as entered

---
 pvtrace/studio/static/app.js | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index dc63e7c..5cee71e 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -1357,13 +1357,18 @@ function connect() {
   };
 }
 
+function countOf(id, otherwise) {
+  const value = Number(document.getElementById(id).value);
+  return Number.isInteger(value) && value > 0 ? value : otherwise;
+}
+
 function startRun() {
   if (!socket || socket.readyState !== WebSocket.OPEN) return;
   socket.send(JSON.stringify({ cmd: "stop" }));
   socket.send(JSON.stringify({
     cmd: "run",
-    rays: parseInt(document.getElementById("rays").value, 10) || 100000,
-    record_every: parseInt(document.getElementById("record-every").value, 10) || 500,
+    rays: countOf("rays", 100000),
+    record_every: countOf("record-every", 500),
   }));
 }
 
-- 
2.43.0


From 3e837aef7da2f0e81e00e6086cc1e86abbdd7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:31 +0000
Subject: [PATCH 75/77] fix: clicks select only what is shown

---
 pvtrace/studio/static/app.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 5cee71e..74aebd4 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -423,7 +423,8 @@ renderer.domElement.addEventListener("pointerup", (event) => {
   );
   const raycaster = new THREE.Raycaster();
   raycaster.setFromCamera(pointer, camera);
-  const hits = raycaster.intersectObjects(pickable, false);
+  const hits = raycaster.intersectObjects(
+    pickable.filter((mesh) => mesh.visible), false);
   if (!hits.length) { select(selected.segment, selected.name ? null : selected.name); return; }
   const data = hits[0].object.userData;
   if (data.kind === "recorder") {
-- 
2.43.0


From af1d45aca45f8f2b6cef3616a1d9b962ba5f364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:52 +0000
Subject: [PATCH 76/77] fix: simulate ends when recording fails

A row the database refused ended the writer thread: the command waited for
ever for the queue to be emptied, or reported success.
---
 pvtrace/cli/main.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pvtrace/cli/main.py b/pvtrace/cli/main.py
index 4d6a5c6..a754de4 100644
--- a/pvtrace/cli/main.py
+++ b/pvtrace/cli/main.py
@@ -211,9 +211,23 @@ def simulate(
     manager = multiprocessing.Manager()
     queue = manager.Queue(maxsize=10000)
     stop = threading.Event()
+    failures = []
+
+    def monitor(*args):
+        try:
+            monitor_queue(*args)
+        except Exception as err:
+            # Keep emptying the queue, otherwise the simulation waits for ever
+            failures.append(err)
+            while not (stop.is_set() and queue.empty()):
+                try:
+                    queue.get(True, 0.1)
+                except Empty:
+                    pass
+
     with typer.progressbar(length=rays) as progress:
         monitor_thread = threading.Thread(
-            target=monitor_queue,
+            target=monitor,
             args=(
                 dbfilepath,
                 queue,
@@ -238,6 +252,9 @@ def simulate(
                 pytime.sleep(0.2)
             stop.set()
             monitor_thread.join()
+    if failures:
+        print(f"Recording failed: {failures[0]}")
+        raise typer.Exit(code=1)
     print("OK")
 
 
-- 
2.43.0


From 641e30377336951f1cc480ec9e082600c43476d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:52 +0000
Subject: [PATCH 77/77] fix: live view shows the last photon of every process

A history was only drawn once its process started the next photon.
---
 pvtrace/cli/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvtrace/cli/main.py b/pvtrace/cli/main.py
index a754de4..8d0e8e2 100644
--- a/pvtrace/cli/main.py
+++ b/pvtrace/cli/main.py
@@ -117,6 +117,10 @@ def monitor_queue(
         if stop.is_set() and queue.empty():
             connection.close()
             if renderer:
+                # The last history of each process is now complete
+                for steps in history.values():
+                    if len(steps) > 1:
+                        renderer.add_history(steps)
                 del renderer
             return
 
-- 
2.43.0

