From 19542ccdca180e297f39356a2e39b03c6aef93b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:45 +0000
Subject: [PATCH 01/13] fix: particles on the first row or column ignored
 neighbouring edge cells

---
 dorado/lagrangian_walker.py | 5 +++--
 dorado/particle_track.py    | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index 5dd6cce..b4bb5ae 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -398,8 +398,9 @@ def check_for_boundary(new_inds, current_inds, cell_type):
     # If so, then stop moving particle
     for i in range(0, len(new_inds)):
         # If particle borders an edge, cancel out any additional steps
-        if -1 in cell_type[current_inds[i][0]-1:current_inds[i][0]+2,
-                           current_inds[i][1]-1:current_inds[i][1]+2]:
+        # (clip at 0, a negative slice start would wrap to an empty window)
+        if -1 in cell_type[max(current_inds[i][0]-1, 0):current_inds[i][0]+2,
+                           max(current_inds[i][1]-1, 0):current_inds[i][1]+2]:
             new_inds[i][0] = current_inds[i][0]
             new_inds[i][1] = current_inds[i][1]
 
diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 00ec552..76b6488 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -735,9 +735,9 @@ class Particles():
                 _iter_particles = []
 
                 # Only iterate if this particle isn't already at a boundary:
-                if -1 not in self.cell_type[all_xinds[ii][-1]-1:
+                if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-                                            all_yinds[ii][-1]-1:
+                                            max(all_yinds[ii][-1]-1, 0):
                                             all_yinds[ii][-1]+2]:
                     # Loop until |target time - current time| <
                     #            |target time - estimated next time|
-- 
2.43.0


From 3f9aac29417f05800e739ca7f2e03d200cc123ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:49 +0000
Subject: [PATCH 02/13] fix: particle with no admissible neighbour jumped to
 the upper left cell

---
 dorado/lagrangian_walker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dorado/lagrangian_walker.py b/dorado/lagrangian_walker.py
index b4bb5ae..326b4a0 100644
--- a/dorado/lagrangian_walker.py
+++ b/dorado/lagrangian_walker.py
@@ -427,6 +427,9 @@ def random_pick(probs):
     """
     probs[np.isnan(probs)] = 0  # any nans are assigned as 0
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # if there is nowhere to go, stay in the current cell (index 4)
+    if cutoffs[-1] <= 0:
+        return 4
     # randomly pick indices from cutoffs based on uniform distribution
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
@@ -463,6 +466,9 @@ def steep_descent(probs):
     # is just 1, or it will randomly choose between values in the event
     # of a tie
     cutoffs = np.cumsum(probs)  # cumulative sum of all probabilities
+    # if there is nowhere to go, stay in the current cell (index 4)
+    if cutoffs[-1] <= 0:
+        return 4
     idx = cutoffs.searchsorted(np.random.uniform(0, cutoffs[-1]))
 
     return idx
-- 
2.43.0


From 534d54fe85dbf7be622daefbd494a1040be6c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:53 +0000
Subject: [PATCH 03/13] fix: iteration limit warning only considered the last
 particle

---
 dorado/particle_track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index 76b6488..aa439bd 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -722,6 +722,9 @@ class Particles():
         else:
             # If we ARE aiming for a specific time
             # iterate each particle until we get there
+            # init list for too many particle iterations
+            _iter_particles = []
+
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
@@ -731,9 +734,6 @@ class Particles():
                     est_next_dt = 0.1
                 count = 1
 
-                # init list for too many particle iterations
-                _iter_particles = []
-
                 # Only iterate if this particle isn't already at a boundary:
                 if -1 not in self.cell_type[max(all_xinds[ii][-1]-1, 0):
                                             all_xinds[ii][-1]+2,
-- 
2.43.0


From 37b7645ba9b26c79cf22438b818cde0c4bb68b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 04/13] fix: particle already past the target time still took a
 step after an instantaneous one

---
 dorado/particle_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index aa439bd..a88cfaa 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -728,7 +728,8 @@ class Particles():
             # Loop through all particles
             for ii in list(range(self.Np_tracer)):
                 if len(all_times[ii]) > 1:
-                    est_next_dt = all_times[ii][-1] - all_times[ii][-2]
+                    est_next_dt = max(0.1, all_times[ii][-1] -
+                                      all_times[ii][-2])
                 else:
                     # Initialize a guess for the next iteration's timestep
                     est_next_dt = 0.1
-- 
2.43.0


From 7768f12aaddbabdb5ce8001a4d67822c78cdba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 05/13] fix: building Particles altered the caller's velocities
 and variable list

---
 dorado/particle_track.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index a88cfaa..bca71be 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -216,11 +216,11 @@ class Particles():
                 self.v[np.isnan(self.v)] = 0
 
             elif params.u is not None and params.v is not None:
-                self.u = params.u
+                self.u = np.array(params.u, dtype=float)
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.v
+                self.v = np.array(params.v, dtype=float)
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
@@ -244,7 +244,7 @@ class Particles():
                 self.u[np.isnan(self.u)] = 0
                 self.qx = self.u*self.depth
 
-                self.v = params.u
+                self.v = np.array(params.u, dtype=float)
                 self.v[np.isnan(self.v)] = 0
                 self.qy = self.v*self.depth
 
@@ -429,7 +429,7 @@ class Particles():
 
         # Read optional variables from params
         if getattr(params, 'particle_variables', None) is not None:
-            self.particle_variables = params.particle_variables
+            self.particle_variables = list(params.particle_variables)
         else:
             self.particle_variables = []
 
-- 
2.43.0


From b251613120c2b10088abf55c3f94f162095f3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:04 +0000
Subject: [PATCH 06/13] fix: generate_particles misaligned tracked variables
 and grew previous_walk_data

---
 dorado/particle_track.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index bca71be..ae376ed 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -588,16 +588,20 @@ class Particles():
             for var, new_var_list in optional_start_vars.items():
                 if var in self.walk_data:
                     internal_var = self.walk_data[var]
-                    optional_start_vars[var] = internal_var + new_var_list
+                else:
+                    # not recorded so far, fill in to keep particles aligned
+                    internal_var = [[None]*len(t) for t in internal_times]
+                optional_start_vars[var] = internal_var + new_var_list
 
         if previous_walk_data is not None:
             # If the generator has been run before, or if new
             # particles are going to be added to a set of pre-existing
             # particles, then the walk_data dictionary from either can
             # be fed into this function as input
-            prev_xinds = previous_walk_data['xinds']
-            prev_yinds = previous_walk_data['yinds']
-            prev_times = previous_walk_data['travel_times']
+            # (copied, as these lists grow when the particles move on)
+            prev_xinds = [list(x) for x in previous_walk_data['xinds']]
+            prev_yinds = [list(y) for y in previous_walk_data['yinds']]
+            prev_times = [list(t) for t in previous_walk_data['travel_times']]
 
             # combine previous and new lists of particle information
             start_xindices = prev_xinds + start_xindices
@@ -607,8 +611,11 @@ class Particles():
             # merge optional variables with previous_walk_data
             for var, new_var_list in optional_start_vars.items():
                 if var in previous_walk_data:
-                    prev_var = previous_walk_data[var]
-                    optional_start_vars[var] = prev_var + new_var_list
+                    prev_var = [list(p) for p in previous_walk_data[var]]
+                else:
+                    # not recorded so far, fill in to keep particles aligned
+                    prev_var = [[None]*len(t) for t in prev_times]
+                optional_start_vars[var] = prev_var + new_var_list
 
         # determine the new total number of particles we have now
         self.Np_tracer = len(start_xindices)
-- 
2.43.0


From f032b70487dd65c72aebd782c0c9ae565136f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:09 +0000
Subject: [PATCH 07/13] fix: tracked variables of manually set walk data
 restarted at every iteration

---
 dorado/particle_track.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index ae376ed..a83978b 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -693,7 +693,9 @@ class Particles():
                 if var in self.walk_data:
                     optional_vars[var] = self.walk_data[var]
                 else:
-                    optional_vars[var] = [[None] for _ in range(self.Np_tracer)]
+                    # not recorded so far, fill in to keep steps aligned
+                    optional_vars[var] = [[None]*len(all_times[i])
+                                          for i in range(self.Np_tracer)]
         
         start_optional = {var: [optional_vars[var][i][-1] for i in range(self.Np_tracer)]
                         for var in optional_vars}
@@ -791,8 +793,8 @@ class Particles():
                               " time-step. Particles are: " +
                               str(_iter_particles))
 
-            # re-write the walk_data attribute of self
-            self.walk_data = all_walk_data
+        # re-write the walk_data attribute of self
+        self.walk_data = all_walk_data
 
         return all_walk_data
 
-- 
2.43.0


From 63c77184ced50d7f55c56a66bb15cf7d62b0e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:12 +0000
Subject: [PATCH 08/13] fix: parallel processes all produced the same random
 walk

---
 dorado/parallel_routing.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/dorado/parallel_routing.py b/dorado/parallel_routing.py
index 38aee2a..22fe283 100644
--- a/dorado/parallel_routing.py
+++ b/dorado/parallel_routing.py
@@ -37,6 +37,9 @@ def run_iter(pobj):
             any optional variables, with details same as input previous_walk_data
 
     """
+    # processes start with a copy of the same random state, so set it anew
+    if getattr(pobj, 'seed', None) is not None:
+        np.random.seed(pobj.seed)
     pobj.particles.generate_particles(pobj.Np_tracer, pobj.seed_xloc,
                                       pobj.seed_yloc)
     # do iterations
@@ -129,16 +132,20 @@ def parallel_routing(particles, num_iter, Np_tracer, seed_xloc, seed_yloc,
             and travel times for each particle computed by that process/core
 
     """
-    # make parallel object to assign to function
-    pobj = parallel_obj()
-    pobj.particles = particles
-    pobj.num_iter = num_iter
-    pobj.Np_tracer = Np_tracer
-    pobj.seed_xloc = seed_xloc
-    pobj.seed_yloc = seed_yloc
-
     # define list to pass to actual function that will be mapped to in parallel
-    p_list = [pobj] * num_cores
+    p_list = []
+    # every process gets a random seed of its own, so walks are independent
+    seeds = np.random.randint(0, 2**31 - 1, size=num_cores)
+    for seed in seeds:
+        # make parallel object to assign to function
+        pobj = parallel_obj()
+        pobj.particles = particles
+        pobj.num_iter = num_iter
+        pobj.Np_tracer = Np_tracer
+        pobj.seed_xloc = seed_xloc
+        pobj.seed_yloc = seed_yloc
+        pobj.seed = int(seed)
+        p_list.append(pobj)
 
     # create the parallel pool and run the process
     p = Pool(processes=num_cores)
-- 
2.43.0


From 960f302f577c025d58679bedfc5bd774fa185b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:17 +0000
Subject: [PATCH 09/13] fix: flux_proportional_seeding failed for a column of
 discharges

---
 dorado/particle_track.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dorado/particle_track.py b/dorado/particle_track.py
index a83978b..2028c86 100644
--- a/dorado/particle_track.py
+++ b/dorado/particle_track.py
@@ -1395,8 +1395,9 @@ def flux_proportional_seeding(Q,
     N_remaining = N_total - N_int.sum()
 
     if N_remaining > 0:
-        add_idx = np.argsort(remainders)[-N_remaining:]
-        N_int[add_idx] += 1
+        # (indices into the flattened array, as Q may be a 2D column)
+        add_idx = np.argsort(remainders, axis=None)[-N_remaining:]
+        N_int.flat[add_idx] += 1
 
     # Final check
     assert N_int.sum() == N_total, "Particle rounding failed!"
-- 
2.43.0


From 845ea21a20b166ada7e177b60ab1b64b86bbc681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:20 +0000
Subject: [PATCH 10/13] fix: plotting routines failed with (or without)
 optional tracked variables

---
 dorado/routines.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 1de0eaa..ae2b71e 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -84,10 +84,10 @@ def steady_plots(particle, num_iter,
         walk_data = particle.run_iteration()
         if save_output:
             # Get current location
-            xi, yi, ti = get_state(walk_data)
+            xi, yi, ti = get_state(walk_data)[:3]
             if i == 0:
                 # Initialize figure
-                x0, y0, t0 = get_state(walk_data, 0)
+                x0, y0, t0 = get_state(walk_data, 0)[:3]
                 fig = plt.figure(dpi=200)
                 ax = fig.add_subplot(111)
                 im = ax.imshow(particle.depth)
@@ -259,9 +259,9 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
         walk_data = particle.run_iteration(target_time=target_times[i])
 
-        xi, yi, ti = get_state(walk_data)
+        xi, yi, ti = get_state(walk_data)[:3]
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = fig.add_subplot(111)
@@ -346,10 +346,10 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
         walk_data = particle.run_iteration()
 
         # collect latest travel times
-        xi, yi, temptimes = get_state(walk_data)
+        xi, yi, temptimes = get_state(walk_data)[:3]
 
         if i == 0:
-            x0, y0, t0 = get_state(walk_data, 0)
+            x0, y0, t0 = get_state(walk_data, 0)[:3]
             # Initialize figure
             fig = plt.figure(dpi=200)
             ax = plt.gca()
@@ -614,7 +614,7 @@ def plot_exposure_time(walk_data,
     # Initialize arrays to record exposure time of each particle
     Np_tracer = len(walk_data['xinds'])  # Number of particles
     # Record final travel times
-    x, y, end_time, optional_state = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     # Handle the timedelta
     if timedelta == 1:
@@ -818,7 +818,7 @@ def plot_exposure_time_thresholds(walk_data,
     """
 
     Np_tracer = len(walk_data['xinds'])
-    x, y, end_time = get_state(walk_data)
+    x, y, end_time = get_state(walk_data)[:3]
 
     if timedelta == 1:
         timeunit = '[s]'
@@ -1087,9 +1087,9 @@ def plot_state(grid, walk_data, iteration=-1, target_time=None, c='b'):
 
     """
     if target_time is None:
-        x, y, t = get_state(walk_data, int(iteration))
+        x, y, t = get_state(walk_data, int(iteration))[:3]
     else:
-        x, y, t = get_time_state(walk_data, target_time)
+        x, y, t = get_time_state(walk_data, target_time)[:3]
     ax = plt.gca()
     ax.imshow(grid)
     plt.scatter(y, x, c=c)
-- 
2.43.0


From 5564fe59da98da80bda1783ce47ee8d33b7a0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:24 +0000
Subject: [PATCH 11/13] fix: saving walk data failed for tracked grids of numpy
 scalars

---
 dorado/routines.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index ae2b71e..0faf411 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -22,6 +22,13 @@ import json
 # --------------------------------------------------------
 # Functions for running random walk model
 # --------------------------------------------------------
+def _to_builtin(value):
+    """Convert a numpy value tracked in walk_data for use in a json file."""
+    if isinstance(value, (np.generic, np.ndarray)):
+        return value.tolist()
+    raise TypeError(str(type(value)) + ' is not JSON serializable')
+
+
 def steady_plots(particle, num_iter,
                  folder_name=None, save_output=True,
                  verbose=None):
@@ -110,7 +117,7 @@ def steady_plots(particle, num_iter,
     if save_output:
         # save data as json text file - technically human readable
         fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-        json.dump(walk_data, open(fpath, 'w'))
+        json.dump(walk_data, open(fpath, 'w'), default=_to_builtin)
 
         # example code to load the dictionary back from the output json file
         # data = json.load(open('data.txt'))
@@ -286,7 +293,7 @@ def unsteady_plots(dx, Np_tracer, seed_xloc, seed_yloc, num_steps, timestep,
 
     # save data as a json text file - technically human readable
     fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-    json.dump(walk_data, open(fpath, 'w'))
+    json.dump(walk_data, open(fpath, 'w'), default=_to_builtin)
 
     # example code for loading the dict back from the output json file:
     # data = json.load(open('data.txt'))
@@ -379,7 +386,7 @@ def time_plots(particle, num_iter, folder_name=None, verbose=None):
 
     # save data as a json text file - technically human readable
     fpath = folder_name+os.sep+'data'+os.sep+'data.txt'
-    json.dump(walk_data, open(fpath, 'w'))
+    json.dump(walk_data, open(fpath, 'w'), default=_to_builtin)
 
     # example code for loading the dict back from the output json file:
     # data = json.load(open('data.txt'))
-- 
2.43.0


From ac6688bc066d7012aa4389ea2aa416b29ad9eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:27 +0000
Subject: [PATCH 12/13] fix: plot_exposure_time_thresholds failed when a
 percentile is not reached

---
 dorado/routines.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dorado/routines.py b/dorado/routines.py
index 0faf411..62c7fbd 100644
--- a/dorado/routines.py
+++ b/dorado/routines.py
@@ -883,14 +883,14 @@ def plot_exposure_time_thresholds(walk_data,
     E75_idx = np.searchsorted(smooth_CDF, 0.75)
     E90_idx = np.searchsorted(smooth_CDF, 0.90)
 
-    E50_time = int(smooth_time_vect[E50_idx] / timedelta)
-    E75_time = int(smooth_time_vect[E75_idx] / timedelta)
-    E90_time = int(smooth_time_vect[E90_idx] / timedelta)
-
     handle_verbose_deprecation(verbose)
-    logger.info(f'E50: {E50_time} {timeunit}')
-    logger.info(f'E75: {E75_time} {timeunit}')
-    logger.info(f'E90: {E90_time} {timeunit}')
+    for level, idx in ((50, E50_idx), (75, E75_idx), (90, E90_idx)):
+        if idx < len(smooth_time_vect):
+            e_time = int(smooth_time_vect[idx] / timedelta)
+            logger.info(f'E{level}: {e_time} {timeunit}')
+        else:
+            logger.info(f'E{level}: not reached'
+                        f' (max F={float(smooth_CDF[-1]):.3f})')
 
     for yval in [0.5, 0.75, 0.90]:
         ax1.axhline(y=yval, color='gray', linestyle='--', linewidth=0.75)
-- 
2.43.0


From dec3b73aa79251107592c2bb8f953aea284341a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 13/13] fix: plot_spatial returned an empty list instead of the
 axes drawn

---
 dorado/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dorado/spatial.py b/dorado/spatial.py
index cd5d69b..5c6987d 100644
--- a/dorado/spatial.py
+++ b/dorado/spatial.py
@@ -342,6 +342,7 @@ def plot_spatial(exposure_maps,
         ax.tick_params(axis='both', which='both', labelsize=8)
         ax.set_xticks([])
         ax.set_yticks([])
+        axes.append(ax)
 
     cax = fig.add_axes([0.149, 0.13, 0.7525, 0.04])
     cbar = fig.colorbar(plt.cm.ScalarMappable(norm=norm, cmap=cmap),
-- 
2.43.0

