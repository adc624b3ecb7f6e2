From dbbb00b6c79d9887287714d7a2f524eaad45069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:51 +0000
Subject: [PATCH 01/14] fix: particles without a possible destination stay in
 place

A cell on the raster border has no routing weights, and a pit visited in
steepest descent mode loses its only one.  Drawing from an all-zero weight
vector returned index 0, which moved the particle to the NW neighbour:
outside of the grid (negative index) or onto dry land.
---
 dorado/lagrangian_walker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..8dd786c 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -426,6 +426,9 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # if there is nowhere to go, remain in the current cell (index 4)
+    if cutoffs[-1] <= 0:
+        return 4
     # randomly pick indices from cutoffs based on uniform distribution
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
@@ -462,6 +465,9 @@ def steep_descent(probs):
     # is just 1, or it will randomly choose between values in the event
     # of a tie
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # if there is nowhere to go, remain in the current cell (index 4)
+    if cutoffs[-1] <= 0:
+        return 4
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
     return idx
-- 
2.43.0


From d82759be34476bf788cb4345c82f67a5c592b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:40 +0000
Subject: [PATCH 02/14] fix: do not overwrite the user's velocity arrays

u and v given through modelParams were aliased and floored at 1e-8 in
place, so a second Particles object built from the same parameters was
routed with discharge in still water.
---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..bb778c8 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -216,11 +216,11 @@ class Particles():
                 self.v[np.isnan(self.v)] = 0
 
             elif params.u is not None and params.v is not None:
-                self.u = params.u
+                self.u = np.array(params.u)
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.v
+                self.v = np.array(params.v)
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
@@ -244,7 +244,7 @@ class Particles():
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.u
+                self.v = np.array(params.u)
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
-- 
2.43.0


From 43a204c92c2fadf523a14e9c9e2e98444630a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:46 +0000
Subject: [PATCH 03/14] fix: do not append roi_flag to the user's
 particle_variables list

The list was shared with modelParams, so building again without roi_grid
failed on the unknown variable roi_flag.
---
 dorado/particle_track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index bb778c8..3cdc693 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -429,7 +429,7 @@ class Particles():
 
         # Read optional variables from params
         if getattr(params, 'particle_variables', None) is not None:
-            self.particle_variables = params.particle_variables
+            self.particle_variables = list(params.particle_variables)
         else:
             self.particle_variables = []
 
-- 
2.43.0


From cfdd35583257e8b012d4a5007c5b9cd9e8df5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:50 +0000
Subject: [PATCH 04/14] fix: report every particle stopped by the iteration
 limit

The list of limited particles was reset for each particle, so the
warning only ever knew about the last one, and a run without particles
failed with UnboundLocalError.
---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 3cdc693..381bd8b 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -722,6 +722,9 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -731,9 +734,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 if -1 not in self.cell_type[all_xinds[ii][-1]-1:
                                             all_xinds[ii][-1]+2,
-- 
2.43.0


From 56b7ea6db5302b875258db1c72428803a9e5ff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:28 +0000
Subject: [PATCH 05/14] fix: keep tracked variables aligned with walk data that
 lacks them

When earlier walk data did not hold a tracked variable, its lists were
shorter than the position lists: values were attributed to the wrong
particles or run_iteration failed with IndexError.  Unknown values are
now None for every earlier entry, and a single iteration stores the
tracked variables as a target-time run does.
---
 dorado/particle_track.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 381bd8b..e080158 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -588,7 +588,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:
+                    # not tracked before, values are unknown
+                    internal_var = [[None]*len(x) for x in internal_xinds]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
@@ -608,7 +611,10 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
                     prev_var = previous_walk_data[var]
-                    optional_start_vars[var] = prev_var + new_var_list
+                else:
+                    # not tracked before, values are unknown
+                    prev_var = [[None]*len(x) for x in prev_xinds]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
@@ -686,7 +692,8 @@ class Particles():
                 if var in self.walk_data:
                     optional_vars[var] = self.walk_data[var]
                 else:
-                    optional_vars[var] = [[None] for _ in range(self.Np_tracer)]
+                    # not tracked before, values are unknown
+                    optional_vars[var] = [[None]*len(x) for x in all_xinds]
         
         start_optional = {var: [optional_vars[var][i][-1] for i in range(self.Np_tracer)]
                         for var in optional_vars}
@@ -783,8 +790,8 @@ class Particles():
                               " time-step. Particles are: " +
                               str(_iter_particles))
 
-            # re-write the walk_data attribute of self
-            self.walk_data = all_walk_data
+        # re-write the walk_data attribute of self
+        self.walk_data = all_walk_data
 
         return all_walk_data
 
-- 
2.43.0


From 25301647ac4060c2932d4c3b41d5b9d37aad5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:07 +0000
Subject: [PATCH 06/14] fix: route different particles on each core

Forked workers inherited the same random state, so parallel_routing
returned num_cores copies of one worker's particles.
---
 dorado/parallel_routing.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..62b51d3 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -16,7 +16,7 @@ from multiprocessing import Pool
 
 
 # convert run script into a function that returns a single dictionary 'data'
-def run_iter(pobj):
+def run_iter(args):
     """Wrapper run script for the particle iterations.
 
     This is an internal function that should not be called directly. Rather it
@@ -27,8 +27,9 @@ def run_iter(pobj):
 
     **Inputs** :
 
-        pobj : :obj:`parallel_obj`
-            Special parallel object.
+        args : `tuple`
+            Special parallel object (:obj:`parallel_obj`) and the random seed
+            to route its particles with.
 
     **Outputs** :
 
@@ -37,6 +38,8 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    pobj, seed = args
+    np.random.seed(seed)
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
     # do iterations
@@ -138,7 +141,9 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
     pobj.seed_yloc = seed_yloc
 
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    # all processes inherit the same random state, so seed each one differently
+    base_seed = np.random.randint(2**31 - 1)
+    p_list = [(pobj, [base_seed, core]) for core in range(num_cores)]
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From 17992490b68206bfb26eaa6f7e49e215a9fedd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 07/14] fix: flux_proportional_seeding of a discharge column

For the documented rows-by-one-column array argsort ran along the last
axis and every remaining particle went to the first row, failing the
final sum check.
---
 dorado/particle_track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index e080158..4d8088e 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1392,8 +1392,8 @@ def flux_proportional_seeding(Q,
     N_remaining = N_total - N_int.sum()
 
     if N_remaining > 0:
-        add_idx = np.argsort(remainders)[-N_remaining:]
-        N_int[add_idx] += 1
+        add_idx = np.argsort(remainders, axis=None)[-N_remaining:]
+        N_int.flat[add_idx] += 1
 
     # Final check
     assert N_int.sum() == N_total, "Particle rounding failed!"
-- 
2.43.0


From 89585120a425369edb63511a87a8546808375ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:17 +0000
Subject: [PATCH 08/14] fix: plot walk data with and without additional
 variables

get_state returns three or four values depending on the walk data; the
routines relied on exactly three (or, in plot_exposure_time, four) and
failed to unpack otherwise.
---
 dorado/routines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..ae2b71e 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -259,9 +259,9 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         walk_data = particle.run_iteration(target_time=target_times[i])
 
-        xi, yi, ti = get_state(walk_data)
+        xi, yi, ti = get_state(walk_data)[:3]
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
@@ -346,10 +346,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -614,7 +614,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -818,7 +818,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1087,9 +1087,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From 4d97987bbd660b2ef24e1353aeac47ee23b4cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 09/14] fix: plot_exposure_time_thresholds when a level is not
 reached

If too few particles exit, searchsorted returns the length of the time
vector and indexing with it raised IndexError.  Report the level as not
reached, as plot_exposure_time does.
---
 dorado/routines.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index ae2b71e..ab2ebaf 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -876,14 +876,13 @@ def plot_exposure_time_thresholds(walk_data,
     E75_idx = np.searchsorted(smooth_CDF, 0.75)
     E90_idx = np.searchsorted(smooth_CDF, 0.90)
 
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for name, idx in (('E50', E50_idx), ('E75', E75_idx), ('E90', E90_idx)):
+        if idx < len(smooth_time_vect):
+            E_time = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'{name}: {E_time} {timeunit}')
+        else:
+            logger.info(f'{name}: not reached (max F={smooth_CDF[-1]:.3f})')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0


From 7239adfbbdba701a9ee9f3387ee2bc3d23483ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:39 +0000
Subject: [PATCH 10/14] fix: crop only the borders in unstruct2grid

All-NaN rows and columns in the interior of the raster (e.g. at a neck
of the boundary polygon, or missing data) were removed as well, which
shifted everything beyond them by a cell.
---
 dorado/particle_track.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 4d8088e..06b30e4 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1290,6 +1290,11 @@ def unstruct2grid(coordinates,
         path = matplotlib.path.Path(boundary)
         outside = ~path.contains_points(gridXY_array)
 
+    # Rows or columns from the first through the last one with data
+    def inner(has_data):
+        return (np.logical_or.accumulate(has_data) &
+                np.logical_or.accumulate(has_data[::-1])[::-1])
+
     # Create Interpolation function
     if k_nearest_neighbors == 1:  # Only use nearest neighbor
         index_qFun = interpolate.NearestNDInterpolator(inputXY,
@@ -1307,8 +1312,8 @@ def unstruct2grid(coordinates,
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
                 mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = gridded_data[np.ix_(inner(mask.any(1)),
+                                                   inner(mask.any(0)))]
             return gridded_data
     else:
         # Inverse-distance interpolation
@@ -1333,8 +1338,8 @@ def unstruct2grid(coordinates,
             gridded_data = np.flipud(gridded_data)
             if boundary is not None and crop is True:
                 mask = ~np.isnan(gridded_data) # Delete all-nan border
-                gridded_data = gridded_data[np.ix_(mask.any(1),
-                                                   mask.any(0))]
+                gridded_data = gridded_data[np.ix_(inner(mask.any(1)),
+                                                   inner(mask.any(0)))]
             return gridded_data
 
     # Finally, call the interpolation function to create array:
-- 
2.43.0


From 698bc783992def52c0ef670d19734f7353fe56c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:43 +0000
Subject: [PATCH 11/14] fix: store tracked variables as plain numbers

Flow fields of single precision or integers put numpy scalars into the
walk data, which json cannot write, so the routines failed to save it.
---
 dorado/lagrangian_walker.py | 2 +-
 dorado/particle_track.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 8dd786c..b4c0d45 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -548,6 +548,6 @@ def particle_stepper(Particles, current_inds, travel_times, start_optional):
         if var not in updated_optional:
             if var in Particles.available_particle_vars:
                 grid = Particles.available_particle_vars[var]
-                updated_optional[var] = [grid[x, y] for x, y in new_inds]
+                updated_optional[var] = [grid[x, y].item() for x, y in new_inds]
 
     return new_inds, travel_times, updated_optional
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 06b30e4..ba006ac 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -566,7 +566,7 @@ class Particles():
                                                 for x, y in zip(new_start_xindices, new_start_yindices)]
                 elif var in self.available_particle_vars:
                     grid_values = self.available_particle_vars[var]
-                    optional_start_vars[var] = [[grid_values[x, y]] for x, y in zip(new_start_xindices, new_start_yindices)]
+                    optional_start_vars[var] = [[grid_values[x, y].item()] for x, y in zip(new_start_xindices, new_start_yindices)]
                 else:
                     raise ValueError(f"Variable {var} is not a recognized variable to track. Available variables are: {list(self.available_particle_vars.keys())} and 'roi_flag' (if roi_grid is provided).")
 
-- 
2.43.0


From 22329c21fda77e8746e1c613dfed869cc2385539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:46 +0000
Subject: [PATCH 12/14] fix: setup_logging uses a handler given after the first
 call

A custom handler was silently ignored once the logger had any handler,
for instance after an earlier call for another level.
---
 dorado/logging_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/logging_config.py b/dorado/logging_config.py
index 37df7c6..eb93511 100644
--- a/dorado/logging_config.py
+++ b/dorado/logging_config.py
@@ -46,7 +46,7 @@ def setup_logging(level="WARNING", handler=None):
             f"Invalid logging level: {level}. Must be one of DEBUG, INFO, WARNING, ERROR, CRITICAL"
         )
     logger.setLevel(numeric_level)
-    if not logger.handlers:
+    if handler is not None or not logger.handlers:
         h = handler or logging.StreamHandler()
         h.setFormatter(
             logging.Formatter("%(name)s - %(levelname)s - %(message)s")
-- 
2.43.0


From 13399707da96ba94fe02b0d0ae6490868dfef963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 13/14] fix: do not modify the user's depth, stage and
 discharge arrays

Cells without water got a missing stage in the user's own array, so a later
particle object built from the same parameters with another bed or depth
kept them dry.
---
 dorado/particle_track.py | 10 +++++-----
 dorado/routines.py       |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ba006ac..f236331 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -158,7 +158,7 @@ class Particles():
         # Define the water depth array
         if getattr(params, 'depth', None) is not None:
             try:
-                self.depth = params.depth
+                self.depth = params.depth.copy()
                 self.depth[np.isnan(self.depth)] = 0
             except Exception:
                 raise ValueError("Water depth array incorrectly defined.")
@@ -179,7 +179,7 @@ class Particles():
         # Define the water stage array
         if getattr(params, 'stage', None) is not None:
             try:
-                self.stage = params.stage
+                self.stage = params.stage.copy()
                 self.stage[self.depth == 0] = np.nan
             except Exception:
                 raise ValueError("Water stage array incorrectly defined.")
@@ -205,12 +205,12 @@ class Particles():
         # Define discharge and velocities for all cells in domain
         if params.model == 'DeltaRCM':
             if params.qx is not None and params.qy is not None:
-                self.qx = params.qx
+                self.qx = params.qx.copy()
                 self.qx[np.isnan(self.qx)] = 0
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qy
+                self.qy = params.qy.copy()
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
@@ -234,7 +234,7 @@ class Particles():
                 self.u = self.qx*self.depth/(self.depth**2 + 1e-8)
                 self.u[np.isnan(self.u)] = 0
 
-                self.qy = params.qx
+                self.qy = params.qx.copy()
                 self.qy[np.isnan(self.qy)] = 0
                 self.v = self.qy*self.depth/(self.depth**2 + 1e-8)
                 self.v[np.isnan(self.v)] = 0
diff --git a/dorado/routines.py b/dorado/routines.py
index ab2ebaf..f9c5e1c 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -265,7 +265,7 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
-            im = ax.imshow(params.depth)
+            im = ax.imshow(particle.depth)
             cax = fig.add_axes([ax.get_position().x1+0.01,
                                 ax.get_position().y0,
                                 0.02,
@@ -276,8 +276,8 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
             newloc = ax.scatter(yi, xi, c='r', s=0.75)
         else:
             # Update figure with new locations
-            im.set_data(params.depth)
-            im.set_clim(np.min(params.depth), np.max(params.depth))
+            im.set_data(particle.depth)
+            im.set_clim(np.min(particle.depth), np.max(particle.depth))
             newloc.set_offsets(np.array([yi,xi]).T)
             plt.draw()
         ax.set_title('Depth at Time ' + str(target_times[i]))
-- 
2.43.0


From 515b160a09d85a00eb3d2bf69e730519a28f43ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 14/14] fix: unsteady_plots keeps the logging level unless
 verbose is given

---
 dorado/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index f9c5e1c..5ef1f4a 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -184,7 +184,7 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
     # init params
     params = modelParams()
     params.dx = dx
-    params.verbose = False
+    params.verbose = verbose
     # make directory to save the data
     if folder_name is None:
         folder_name = os.getcwd()
-- 
2.43.0

