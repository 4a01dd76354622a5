From 764befd1b09f83d03f9eeafbd7a5702d496655a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 01/15] fix: del_element also removes the element and material
 type of the element

---
 src/trusspy/handlers/handler_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 273dd38..80d5986 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -103,6 +103,8 @@ class ElementHandler:
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
         self.conns = np.delete(self.conns, idx, axis=0)
+        self.elem_type = np.delete(self.elem_type, idx, axis=0)
+        self.mat_type = np.delete(self.mat_type, idx, axis=0)
         self.material_properties = np.delete(self.material_properties, idx, axis=0)
         self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
 
-- 
2.43.0


From 4a210fb23c8e02912cc9d48ab11c103a7996ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 02/15] fix: do not truncate assigned properties of elements
 created with integers

---
 src/trusspy/handlers/handler_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 80d5986..6bcf9a5 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -85,8 +85,8 @@ class ElementHandler:
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
             self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties])
-            self.geometric_properties = np.array([E.geometric_properties])
+            self.material_properties = np.array([E.material_properties], dtype=float)
+            self.geometric_properties = np.array([E.geometric_properties], dtype=float)
         else:
             self.labels = np.append(self.labels, E.label)
             self.conns = np.vstack((self.conns, E.conn))
-- 
2.43.0


From 2cb4334ff919a3f3724ba64da5bbdb0c29eda0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 03/15] fix: allow elements with different numbers of material
 properties

---
 src/trusspy/handlers/handler_element.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 6bcf9a5..012fffc 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -92,9 +92,12 @@ class ElementHandler:
             self.conns = np.vstack((self.conns, E.conn))
             self.elem_type = np.append(self.elem_type, E.elem_type)
             self.mat_type = np.append(self.mat_type, E.mat_type)
-            self.material_properties = np.vstack(
-                (self.material_properties, E.material_properties)
-            )
+            # fill up missing (trailing) material properties with zeros
+            mprops, mprop = self.material_properties, E.material_properties
+            ncols = max(mprops.shape[1], len(mprop))
+            mprops = np.pad(mprops, ((0, 0), (0, ncols - mprops.shape[1])))
+            mprop = np.pad(np.array(mprop, dtype=float), (0, ncols - len(mprop)))
+            self.material_properties = np.vstack((mprops, mprop))
             self.geometric_properties = np.vstack(
                 (self.geometric_properties, E.geometric_properties)
             )
-- 
2.43.0


From c8d9f7d46b9fc7ab2b6167f890f8d279dbf86b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 04/15] fix: summary of analysis parameters with a given
 initial control component

---
 src/trusspy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 01f41a2..5f9d92b 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -238,7 +238,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 "|Initial control component            |     `j0`|",
-                "LPF|" if self.Settings.j0 == None else self.Settings.j0 + "|",
+                "LPF|" if self.Settings.j0 == None else str(self.Settings.j0) + "|",
             )
             print(
                 "|Locked control component             |`j_fixed`|",
-- 
2.43.0


From cb8b3ed2c3130487ac4ff8d7ee194547918bd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 05/15] fix: respect a given initial control component if it is
 not fixed

---
 src/trusspy/solvers/tpsolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0f7c669..99d2d6f 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -323,8 +323,8 @@ def pathfollow(
         dxmax = np.ones_like(x) * dxmax
     dxmax0 = dxmax.copy()
 
-    # init control component to LPF
-    if not j_fixed:
+    # init control component to LPF (if it is not specified)
+    if j is None:
         j = len(x)
 
     # init INCREMENTS SINCE LAST REFINEMENT (stepcontrol)
-- 
2.43.0


From 8ad20c152639ac2b81965075b2d275d331f35ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 06/15] fix: always solve the increment after the
 pre-identification of j

---
 src/trusspy/solvers/tpsolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 99d2d6f..57201de 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -402,8 +402,8 @@ def pathfollow(
             # set the found solution to j
             j = j_pre
 
-            if abs(v1) > dxtol:
-                nr_success_pre = False
+            # the linearized solution is never the solution of the increment
+            nr_success_pre = False
 
         # -----------------------------------------------------------------
         # END PRE-IDENTIFY j
-- 
2.43.0


From b95f04645b0b5dfb9267c7cfcc38b5f66d51413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 07/15] fix: do not report the non-converged solution of a
 failed increment as result

---
 src/trusspy/model.py            |  2 +-
 src/trusspy/solvers/tpsolver.py | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 5f9d92b..5f9fb63 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -397,7 +397,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)
 
             # append last lpf value
-            self.Results.step_lpf_end.append(self.Results.R[-1].lpf)
+            self.Results.step_lpf_end.append(self.Analysis.lpf)
 
             # reset LPF for new step
             if step + 1 < self.Settings.nsteps:
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 57201de..9b76e71 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -304,7 +304,7 @@ def pathfollow(
     x = np.append(x, 0)
 
     # init result
-    res_x = x.copy()
+    res_x = x.copy().reshape(1, -1)
     res_a = [copy.deepcopy(analysis)]
 
     # check if dxmax is a vector
@@ -541,14 +541,20 @@ def pathfollow(
             print("")
             print("* recycling increment")
 
+        # a non-converged solution is not a result: go back to the beginning of the
+        # increment
+        if stop:
+            x = x0.copy()
+            f(x, x0, j0, x0[abs(j0) - 1], g, dgdx, analysis, False)
+
         # save results to analysis object
-        # if not stop:
         analysis.Vred = x
         analysis.Ured = x[:-1]
         analysis.lpf = x[-1]
 
-        res_x = np.vstack((res_x, x))
-        res_a.append(copy.deepcopy(analysis))
+        if not stop:
+            res_x = np.vstack((res_x, x))
+            res_a.append(copy.deepcopy(analysis))
 
         if verbose > 0:
             print("")
-- 
2.43.0


From 1aa585de9618cef999fe9ac5be06325f7d5ed1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 08/15] fix: update the reduced internal force vector along
 with the internal forces

---
 src/trusspy/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 5f9fb63..ec567f4 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -567,6 +567,7 @@ Dutzler Andreas, Graz University of Technology, 2023
                 + self.Analysis.ExtForces.forces_const.flatten()
                 + lpf * self.Analysis.ExtForces.forces.flatten()
             )
+            self.Analysis.rred = self.Analysis.r.flatten()[self.Analysis.DOF1]
             return self.Analysis.g[self.Analysis.DOF1]
         else:
             return
-- 
2.43.0


From 773f5d9d8015a7cbd4ca42710089c60a0485bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 09/15] fix: look up the state variables in curve plots by the
 element label

---
 src/trusspy/tools/plot_utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 7e82eed..217473c 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -219,7 +219,7 @@ def p_path(self, nodepath, increment=-1, Y="Displacement X", fig=None, ax=None):
             y = R.r[np.where(self.Nodes.labels == node)][0][dir_dict[Y[-1]]]
         elif "State Variable" in Y:
             stv_index = int(Y[-1]) - 1
-            y = R.state_v[np.where(self.Nodes.labels == node)][0][stv_index]
+            y = R.state_v[np.where(self.Elements.labels == node)][0][stv_index]
         xx.append(x)
         yy.append(y)
 
@@ -246,7 +246,7 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
             x = R.r[np.where(self.Nodes.labels == nodes[0])][0][dir_dict[X[-1]]]
         elif "State Variable" in X:
             stv_index = int(X[-1]) - 1
-            x = R.state_v[np.where(self.Nodes.labels == nodes[0])][0][stv_index]
+            x = R.state_v[np.where(self.Elements.labels == nodes[0])][0][stv_index]
 
         if "Displacement" in Y:
             y = R.U[np.where(self.Nodes.labels == nodes[1])][0][dir_dict[Y[-1]]]
@@ -256,7 +256,7 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
             y = R.r[np.where(self.Nodes.labels == nodes[1])][0][dir_dict[Y[-1]]]
         elif "State Variable" in Y:
             stv_index = int(Y[-1]) - 1
-            y = R.state_v[np.where(self.Nodes.labels == nodes[1])][0][stv_index]
+            y = R.state_v[np.where(self.Elements.labels == nodes[1])][0][stv_index]
         xx.append(x)
         yy.append(y)
 
-- 
2.43.0


From 31c79224a084a1d62518c1d7b0bab485dbe81eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 10/15] fix: draw elements between their nodes if the node
 labels are not contiguous

---
 src/trusspy/tools/plot_utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 217473c..17f98d5 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -15,12 +15,17 @@ from .helper_functions2 import plot_elems, plot_force, plot_hist, plot_nodes, pl
 from .movie_generator import png_to_gif
 
 
+def element_nodes(self):
+    "positions (one-based) of the connected nodes of all elements in the list of nodes"
+    return 1 + np.searchsorted(self.Nodes.labels, self.Elements.conns)
+
+
 def p_nodes(self):
     plot_nodes(self.Nodes.coords + self.Results.U, color="C1")
 
 
 def p_elements(self):
-    plot_elems(self.Elements.conns, self.Nodes.coords + self.Results.U, color="C0")
+    plot_elems(element_nodes(self), self.Nodes.coords + self.Results.U, color="C0")
 
 
 def p_extforces(self, step=1):
@@ -121,7 +126,7 @@ def p_model(
         size=nodesize,
     )
     fig, ax = plot_elems(
-        self.Elements.conns,
+        element_nodes(self),
         self.Nodes.coords + self.Results.R[inc].U,
         fig,
         ax,
-- 
2.43.0


From de3b7ab8efa89aee48f3c53271a0657bfdf03486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 11/15] fix: plt_nodes, plt_elements and plt_extforces accept
 the configuration

---
 src/trusspy/tools/plot_utilities.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 17f98d5..249bc38 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -20,18 +20,25 @@ def element_nodes(self):
     return 1 + np.searchsorted(self.Nodes.labels, self.Elements.conns)
 
 
-def p_nodes(self):
-    plot_nodes(self.Nodes.coords + self.Results.U, color="C1")
+def node_positions(self, config="undeformed"):
+    "positions of all nodes in the undeformed or the final deformed configuration"
+    if config == "undeformed":
+        return self.Nodes.coords
+    return self.Nodes.coords + self.Results.R[-1].U
 
 
-def p_elements(self):
-    plot_elems(element_nodes(self), self.Nodes.coords + self.Results.U, color="C0")
+def p_nodes(self, config="undeformed"):
+    plot_nodes(node_positions(self, config), color="C1")
 
 
-def p_extforces(self, step=1):
+def p_elements(self, config="undeformed"):
+    plot_elems(element_nodes(self), node_positions(self, config), color="C0")
+
+
+def p_extforces(self, config="undeformed", step=1):
     plot_force(
         self.ExtForces.forces[:, 3 * (step - 1) : 3 * step],
-        self.Nodes.coords + self.Results.U,
+        node_positions(self, config),
     )
 
 
-- 
2.43.0


From 6732d462a3975f05fb8d958fbef18539f3371388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 12/15] fix: keep the order of movie frames beyond 999
 increments

---
 src/trusspy/tools/movie_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/movie_generator.py b/src/trusspy/tools/movie_generator.py
index a7e56a5..90f7300 100644
--- a/src/trusspy/tools/movie_generator.py
+++ b/src/trusspy/tools/movie_generator.py
@@ -20,7 +20,7 @@ def png_to_gif(workdir=r"figures/", png_subdir=r"png/", gif_subdir=r"gif/", **kw
         rmtree(gif_dir)
     os.mkdir(gif_dir)
 
-    for file_name in sorted(os.listdir(png_dir)):
+    for file_name in sorted(os.listdir(png_dir), key=lambda name: (len(name), name)):
         if file_name.endswith(".png"):
             file_path = os.path.join(png_dir, file_name)
             images.append(imageio.imread(file_path))
-- 
2.43.0


From d2f01edbfd34fc72450e414711e412b9fd9935f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 13/15] fix: redirect the standard output to the logfile only
 inside of the model's methods

---
 src/trusspy/model.py | 45 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index ec567f4..6bf00e0 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -6,8 +6,10 @@ year: 2023
 """
 
 import copy
+import functools
 import sys
 import time
+from contextlib import redirect_stdout
 from subprocess import run as sp_run
 
 import numpy as np
@@ -37,6 +39,22 @@ from .tools import (
 )
 
 
+def log_to_file(method):
+    "Print to the logfile of the model (if there is one) inside of a method."
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        if not self.logfile:
+            return method(self, *args, **kwargs)
+        try:
+            with redirect_stdout(self.log_stream):
+                return method(self, *args, **kwargs)
+        finally:
+            self.log_stream.flush()
+
+    return wrapper
+
+
 class Model:
     """Model Class with Nodes, Elements, Boundaries, etc.
 
@@ -90,7 +108,20 @@ class Model:
         self.logfile_name = logfile_name
 
         if self.logfile:
-            sys.stdout = open(self.logfile_name + ".md", "w")
+            self.log_stream = open(self.logfile_name + ".md", "w")
+
+        self.print_header(log)
+
+        self.Nodes = NodeHandler()
+        self.Elements = ElementHandler()
+        self.Boundaries = BoundaryHandler()
+        self.ExtForces = ExternalForceHandler()
+        self.Settings = SettingsHandler()
+        self.Settings.log = log
+
+    @log_to_file
+    def print_header(self, log):
+        "Print the header of the log."
 
         if log > 1:
             if self.logfile:
@@ -116,13 +147,7 @@ Dutzler Andreas, Graz University of Technology, 2023
         if self.logfile:
             print("```")
 
-        self.Nodes = NodeHandler()
-        self.Elements = ElementHandler()
-        self.Boundaries = BoundaryHandler()
-        self.ExtForces = ExternalForceHandler()
-        self.Settings = SettingsHandler()
-        self.Settings.log = log
-
+    @log_to_file
     def build(self):
         "Build Model (r,U,K,...) with Model data and dimensions."
 
@@ -198,6 +223,7 @@ Dutzler Andreas, Graz University of Technology, 2023
         self.clock1_build = time.perf_counter()
         self.time1_build = time.process_time()
 
+    @log_to_file
     def run(self):
         """Run job."""
 
@@ -437,9 +463,6 @@ Dutzler Andreas, Graz University of Technology, 2023
                 '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
-        if self.logfile:
-            sys.stdout = self.stdout
-
     def stiffness(self, Ured, analysis=None):
         """Method for evaluating the stiffness matrix. It re-shapes the stiffness matrix
         to ``K(nnodes,nnodes,ndim,ndim) --> K(nnodes*ndim,nnodes*nim)`` and returns a
-- 
2.43.0


From 1abfa0ddde0359ff7a0035111e54172ea53b59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 14/15] fix: keep the supports in rows if there is only one

The values of a single support were stored as a one-dimensional array:
deleting this support left two of its components behind and adding
another one failed afterwards.
---
 src/trusspy/handlers/handler_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9f27858..b981f3d 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -41,7 +41,7 @@ class BoundaryHandler:
 
         if self.Unodes is None:
             self.Unodes = np.array([B.node])
-            self.Uvalues = np.array(B.values)
+            self.Uvalues = np.array([B.values])
         else:
             self.Unodes = np.append(self.Unodes, B.node)
             self.Uvalues = np.vstack((self.Uvalues, B.values))
-- 
2.43.0


From 8a36e65b0479af61428e02259d6e486c4eb43e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 15/15] fix: accept a list with one incremental limit per
 component

---
 src/trusspy/solvers/tpsolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 9b76e71..853bbdb 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -317,6 +317,8 @@ def pathfollow(
             dxm[:-1] = np.ones(len(x) - 1) * dxmax[0]
             dxm[-1] = dxmax[-1]
             dxmax = dxm
+        else:  # one value for each component of dx
+            dxmax = np.array(dxmax, dtype=float)
 
     except:
         # if dxmax is a scalar: assign it to every component of dx
-- 
2.43.0

