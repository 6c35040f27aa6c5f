From 4b208b923b5b49354b80861a6c1cec918d84400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 01/22] fix: keep lhs boundary samples of an external mesh on
 their edge

The two coordinates were drawn independently, so the samples filled the
bounding box of every edge that is not parallel to an axis.
---
 fastvpinns/Geometry/geometry_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e042ccf..1b91efa 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -177,9 +177,9 @@ class Geometry_2D(Geometry):
                 new_points = np.linspace(p1, p2, pow(2, boundary_point_refinement_level) + 1)
             elif bd_sampling_method == "lhs":
                 # take the current point and next point and then perform a uniform sampling
-                new_points = lhs(2, pow(2, boundary_point_refinement_level) + 1)
-                new_points[:, 0] = new_points[:, 0] * (p2[0] - p1[0]) + p1[0]
-                new_points[:, 1] = new_points[:, 1] * (p2[1] - p1[1]) + p1[1]
+                # (one random parameter per point, so that the points stay on the edge)
+                params = lhs(1, pow(2, boundary_point_refinement_level) + 1)
+                new_points = params * (p2[0:2] - p1[0:2]) + p1[0:2]
             else:
                 print(
                     f"Invalid sampling method {bd_sampling_method} in {self.__class__.__name__} from {__name__}."
-- 
2.43.0


From 009a8ddc2b5648d4f2edae42973e1ada0c10bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 02/22] fix: take boundary tags from the edges of the mesh file

The tags of the first section were used, which are the cell references
whenever Quadrilaterals precede Edges in the .mesh file.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 1b91efa..94414d7 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -161,7 +161,7 @@ class Geometry_2D(Geometry):
         )
 
         # now Get the physical tag of the boundary edges
-        boundary_tags = self.mesh.cell_data["medit:ref"][0]
+        boundary_tags = self.mesh.cell_data_dict["medit:ref"]["line"]
 
         # Generate a Dictionary of boundary tags and boundary coordinates
         # Keys will be the boundary tags and values will be the list of coordinates
-- 
2.43.0


From bd15734972def89c3620eba648ee0aa35efc36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 03/22] fix: release gmsh when the internal mesh cannot be
 generated or written

An error between initialize() and finalize() (such as an output folder that
cannot be written) left the half-built model behind, and every later attempt
in the same process failed with 'GEO curve with tag 1000 already exists'.
---
 fastvpinns/Geometry/geometry_2d.py | 65 +++++++++++++++---------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 94414d7..aa804a6 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -356,48 +356,49 @@ class Geometry_2D(Geometry):
             # initialise the mesh
             gmsh.initialize()
 
-            # Now, lets generate the mesh with the points.
-            x_range = self.x_limits[1] - self.x_limits[0]
-            y_range = self.y_limits[1] - self.y_limits[0]
+            try:
+                # Now, lets generate the mesh with the points.
+                x_range = self.x_limits[1] - self.x_limits[0]
+                y_range = self.y_limits[1] - self.y_limits[0]
 
-            mesh_size_x = x_range / self.n_test_points_x
-            mesh_size_y = y_range / self.n_test_points_y
+                mesh_size_x = x_range / self.n_test_points_x
+                mesh_size_y = y_range / self.n_test_points_y
 
-            # generate a gmsh with the given parameters
-            Xmin = self.x_limits[0]
-            Xmax = self.x_limits[1]
-            Ymin = self.y_limits[0]
-            Ymax = self.y_limits[1]
+                # generate a gmsh with the given parameters
+                Xmin = self.x_limits[0]
+                Xmax = self.x_limits[1]
+                Ymin = self.y_limits[0]
+                Ymax = self.y_limits[1]
 
-            point1 = gmsh.model.geo.add_point(Xmin, Ymin, 0, mesh_size_x)
-            point2 = gmsh.model.geo.add_point(Xmax, Ymin, 0, mesh_size_x)
-            point3 = gmsh.model.geo.add_point(Xmax, Ymax, 0, mesh_size_y)
-            point4 = gmsh.model.geo.add_point(Xmin, Ymax, 0, mesh_size_y)
+                point1 = gmsh.model.geo.add_point(Xmin, Ymin, 0, mesh_size_x)
+                point2 = gmsh.model.geo.add_point(Xmax, Ymin, 0, mesh_size_x)
+                point3 = gmsh.model.geo.add_point(Xmax, Ymax, 0, mesh_size_y)
+                point4 = gmsh.model.geo.add_point(Xmin, Ymax, 0, mesh_size_y)
 
-            line1 = gmsh.model.geo.add_line(point1, point2, 1000)  ## Bottom
-            line2 = gmsh.model.geo.add_line(point2, point3, 1001)  ## Right
-            line3 = gmsh.model.geo.add_line(point3, point4, 1002)  ## Top
-            line4 = gmsh.model.geo.add_line(point4, point1, 1003)  ## Left
+                line1 = gmsh.model.geo.add_line(point1, point2, 1000)  ## Bottom
+                line2 = gmsh.model.geo.add_line(point2, point3, 1001)  ## Right
+                line3 = gmsh.model.geo.add_line(point3, point4, 1002)  ## Top
+                line4 = gmsh.model.geo.add_line(point4, point1, 1003)  ## Left
 
-            face1 = gmsh.model.geo.add_curve_loop([line1, line2, line3, line4])
+                face1 = gmsh.model.geo.add_curve_loop([line1, line2, line3, line4])
 
-            gmsh.model.geo.add_plane_surface([face1])
+                gmsh.model.geo.add_plane_surface([face1])
 
-            # Create the relevant Gmsh data structures
-            # from Gmsh model.
-            gmsh.model.geo.synchronize()
+                # Create the relevant Gmsh data structures
+                # from Gmsh model.
+                gmsh.model.geo.synchronize()
 
-            # Generate mesh:
-            gmsh.model.mesh.generate()
+                # Generate mesh:
+                gmsh.model.mesh.generate()
 
-            mesh_file_name = Path(self.output_folder) / "internal.msh"
-            vtk_file_name = Path(self.output_folder) / "internal.vtk"
-
-            gmsh.write(str(mesh_file_name))
-            print("[INFO] : Internal mesh file generated at ", str(mesh_file_name))
+                mesh_file_name = Path(self.output_folder) / "internal.msh"
+                vtk_file_name = Path(self.output_folder) / "internal.vtk"
 
-            # close the gmsh
-            gmsh.finalize()
+                gmsh.write(str(mesh_file_name))
+                print("[INFO] : Internal mesh file generated at ", str(mesh_file_name))
+            finally:
+                # close the gmsh, even on failure, so that a later call can start afresh
+                gmsh.finalize()
 
             # read the mesh using meshio
             mesh = meshio.gmsh.read(str(mesh_file_name))
-- 
2.43.0


From 1eb11a9ac5604dbbd511a16f9cdf91c6f6f87468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 04/22] fix: name the axes of the cell residual plot's colorbar

The mappable belongs to no axes, so the installed matplotlib raises
ValueError and plot_adaptive_mesh never produced its figure.
---
 fastvpinns/Geometry/geometry_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index aa804a6..e17c622 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -557,7 +557,7 @@ class Geometry_2D(Geometry):
 
         sm = plt.cm.ScalarMappable(cmap=colormap, norm=norm)
         sm.set_array([])
-        plt.colorbar(sm)
+        plt.colorbar(sm, ax=plt.gca())
 
         # output filename
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
-- 
2.43.0


From 85ea105b649a61c67b9431eab0beed37f6dd9c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 05/22] fix: close the mesh, sensor and cell residual figures
 once saved

They stayed open for the rest of the process, and later pyplot calls without
a new figure drew into them.
---
 fastvpinns/FE/fespace2d.py         | 2 ++
 fastvpinns/Geometry/geometry_2d.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 53e3727..2f3bfa3 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -334,6 +334,7 @@ class Fespace2D(Fespace):
 
         plt.savefig(str(Path(output_path) / "mesh.png"), bbox_inches="tight")
         plt.savefig(str(Path(output_path) / "mesh.svg"), bbox_inches="tight")
+        plt.close()
 
         # print the total number of quadrature points
         print(f"Plots generated")
@@ -684,6 +685,7 @@ class Fespace2D(Fespace):
         plt.title("Sensor Points")
         plt.tight_layout()
         plt.savefig("sensor_points.png", bbox_inches="tight")
+        plt.close()
 
         return points, exact_sol
 
diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index e17c622..5471039 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -563,3 +563,4 @@ class Geometry_2D(Geometry):
         output_filename = Path(f"{self.output_folder}/{filename}_{epoch}.png")
         plt.title(f"Cell Residual")
         plt.savefig(str(output_filename), dpi=300)
+        plt.close()
-- 
2.43.0


From f3b5167bc2ea0ab23b87448ccf5d39e6c45bede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 06/22] fix: plot meshes with more boundary ids than markers

The 16th boundary id ran past the end of the marker list (IndexError).
---
 fastvpinns/FE/fespace2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fastvpinns/FE/fespace2d.py b/fastvpinns/FE/fespace2d.py
index 2f3bfa3..36248e4 100644
--- a/fastvpinns/FE/fespace2d.py
+++ b/fastvpinns/FE/fespace2d.py
@@ -323,7 +323,7 @@ class Fespace2D(Fespace):
 
             bound_dof += x.shape[0]
 
-            plt.scatter(x, y, marker=marker_list[i + 1], s=2, label=f"Bd-id : {bound_id}")
+            plt.scatter(x, y, marker=marker_list[(i + 1) % len(marker_list)], s=2, label=f"Bd-id : {bound_id}")
 
         self.total_boundary_dofs = bound_dof
 
-- 
2.43.0


From aaa775596336b48ea7506fb1f949ac02a78271d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 07/22] fix: accept the keywords DenseModel_Inverse passes in
 the cd2d inverse loss

The model calls its loss with bilinear_params= and inverse_params_dict=, so
training with this loss raised TypeError.
---
 fastvpinns/physics/cd2d_inverse.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fastvpinns/physics/cd2d_inverse.py b/fastvpinns/physics/cd2d_inverse.py
index 073bdba..1da19d8 100644
--- a/fastvpinns/physics/cd2d_inverse.py
+++ b/fastvpinns/physics/cd2d_inverse.py
@@ -23,8 +23,8 @@ def pde_loss_cd2d(
     pred_grad_x_nn,
     pred_grad_y_nn,
     forcing_function,
-    bilinear_params_dict,
-    inverse_param_dict,
+    bilinear_params,
+    inverse_params_dict,
 ):  # pragma: no cover
     """
     Calculates and returns the loss for the  CD2D problem Inverse (constant)
@@ -43,10 +43,10 @@ def pde_loss_cd2d(
     :type pred_grad_y_nn: tf.Tensor
     :param forcing_function: The forcing function used in the PDE.
     :type forcing_function: function
-    :param bilinear_params_dict: The dictionary containing the bilinear parameters.
-    :type bilinear_params_dict: dict
-    :param inverse_param_dict: The dictionary containing the parameters for the inverse problem.
-    :type inverse_param_dict: dict
+    :param bilinear_params: The dictionary containing the bilinear parameters.
+    :type bilinear_params: dict
+    :param inverse_params_dict: The dictionary containing the parameters for the inverse problem.
+    :type inverse_params_dict: dict
 
     :return: The calculated loss.
     :rtype: tf.Tensor
@@ -61,7 +61,7 @@ def pde_loss_cd2d(
     pde_diffusion_y = tf.transpose(tf.linalg.matvec(test_grad_y_mat, pred_grad_y_nn))
 
     # eps * ∫ (du/dx. dv/dx + du/dy. dv/dy) dΩ
-    pde_diffusion = inverse_param_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
+    pde_diffusion = inverse_params_dict["eps"] * (pde_diffusion_x + pde_diffusion_y)
 
     # ∫du/dx. v dΩ
     conv_x = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_x_nn))
@@ -70,11 +70,11 @@ def pde_loss_cd2d(
     conv_y = tf.transpose(tf.linalg.matvec(test_shape_val_mat, pred_grad_y_nn))
 
     # # b(x) * ∫du/dx. v dΩ + b(y) * ∫du/dy. v dΩ
-    conv = bilinear_params_dict["b_x"] * conv_x + bilinear_params_dict["b_y"] * conv_y
+    conv = bilinear_params["b_x"] * conv_x + bilinear_params["b_y"] * conv_y
 
     # reaction term
     # ∫c.u.v dΩ
-    reaction = bilinear_params_dict["c"] * tf.transpose(
+    reaction = bilinear_params["c"] * tf.transpose(
         tf.linalg.matvec(test_shape_val_mat, pred_nn)
     )
 
-- 
2.43.0


From 2065a245dc9929581adb2596937916289860c816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 08/22] fix: do not overwrite the caller's parameter
 dictionaries with tensors

A dictionary the user function returns more than once kept the tensors of the
first conversion, and a second data handler of another dtype raised TypeError.
---
 fastvpinns/data/datahandler2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/data/datahandler2d.py b/fastvpinns/data/datahandler2d.py
index 6b1474d..1bd5a9f 100644
--- a/fastvpinns/data/datahandler2d.py
+++ b/fastvpinns/data/datahandler2d.py
@@ -155,7 +155,7 @@ class DataHandler2D(DataHandler):
         :rtype: dict
         """
         # get the dictionary of bilinear parameters
-        bilinear_params_dict = function()
+        bilinear_params_dict = dict(function())
 
         # loop over all keys and convert the values to tensors
         for key in bilinear_params_dict.keys():
@@ -209,7 +209,7 @@ class DataHandler2D(DataHandler):
         """
         # loop over all keys and convert the values to tensors
 
-        inverse_params_dict = inverse_params_dict_function()
+        inverse_params_dict = dict(inverse_params_dict_function())
 
         for key in inverse_params_dict.keys():
             inverse_params_dict[key] = tf.constant(inverse_params_dict[key], dtype=self.dtype)
-- 
2.43.0


From 0a74304a7ee2d786d563b556cebdeed5fe2c9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 09/22] fix: give every inverse model its own inverse
 parameters

The variables were stored in the caller's dictionary, so a second model built
from it took over the first one's parameters, which then stopped training.
---
 fastvpinns/model/model_inverse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 6309e46..d94eb82 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -69,8 +69,8 @@ class DenseModel_Inverse(tf.keras.Model):
         self.sensor_points = sensor_list[0]
         self.sensor_values = sensor_list[1]
 
-        # inverse params dict
-        self.inverse_params_dict = inverse_params_dict
+        # inverse params dict (a copy, as the values are replaced by variables of this model)
+        self.inverse_params_dict = dict(inverse_params_dict)
 
         # Conver all the values within inverse_params_dict to trainable variables
         for key, value in self.inverse_params_dict.items():
-- 
2.43.0


From c9d386cad7d819aaf20786ff9cc01f03345431b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 10/22] fix: honour the staircase flag of the learning rate
 settings

It was ignored, and the decay was always done in steps.
---
 fastvpinns/model/model.py                | 4 ++--
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index d3cb516..3cfc88e 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -132,11 +132,11 @@ class DenseModel(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 3af0338..94c094a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -157,7 +157,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index d94eb82..2334b18 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -148,7 +148,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 61e78d7..4e08886 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -129,11 +129,11 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         use_lr_scheduler = learning_rate_dict["use_lr_scheduler"]
         decay_steps = learning_rate_dict["decay_steps"]
         decay_rate = learning_rate_dict["decay_rate"]
-        # staircase = learning_rate_dict["staircase"]
+        staircase = learning_rate_dict.get("staircase", True)
 
         if use_lr_scheduler:
             learning_rate_fn = tf.keras.optimizers.schedules.ExponentialDecay(
-                initial_learning_rate, decay_steps, decay_rate, staircase=True
+                initial_learning_rate, decay_steps, decay_rate, staircase=staircase
             )
         else:
             learning_rate_fn = initial_learning_rate
-- 
2.43.0


From 92055d7982211ae1c4c87b5e1b7324d73cb27a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 11/22] fix: let concurrent trials create the shared output
 folder

Two trials that both saw it missing raced, and the loser failed with
FileExistsError.
---
 fastvpinns/hyperparameter_tuning/objective.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/objective.py b/fastvpinns/hyperparameter_tuning/objective.py
index 707ddba..6934992 100644
--- a/fastvpinns/hyperparameter_tuning/objective.py
+++ b/fastvpinns/hyperparameter_tuning/objective.py
@@ -70,8 +70,7 @@ def objective(trial, num_epochs):
     # Set up your model and training process using the suggested hyperparameters
 
     output_temp_dir = "output_temp"
-    if not os.path.exists(output_temp_dir):
-        os.makedirs(output_temp_dir)
+    os.makedirs(output_temp_dir, exist_ok=True)
 
     gpus = tf.config.list_physical_devices('GPU')
     if gpus:
-- 
2.43.0


From 76abfc4ad4176fbf951e0aaf41f2d32cfdb20e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:20 +0000
Subject: [PATCH 12/22] fix: run the tuner on machines without a GPU

Every trial failed with ZeroDivisionError.
---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index af4ebcb..7968aec 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -40,6 +40,9 @@ class OptunaTuner:
         Wrapper function to run the objective function on a specific GPU.
         """
 
+        if not self.gpus:
+            return objective(trial, self.n_epochs)
+
         gpu_id = trial.number % len(self.gpus)
         with tf.device(f'/device:GPU:{gpu_id}'):
             return objective(trial, self.n_epochs)
@@ -51,9 +54,8 @@ class OptunaTuner:
             storage="sqlite:///fastvpinns_optuna.db",
             load_if_exists=True,
         )
-        study.optimize(
-            self.objective_wrapper, n_trials=self.n_trials, n_jobs=min(len(self.gpus), self.n_jobs)
-        )
+        n_jobs = min(len(self.gpus), self.n_jobs) if self.gpus else self.n_jobs
+        study.optimize(self.objective_wrapper, n_trials=self.n_trials, n_jobs=n_jobs)
 
         print("Best trial:")
         trial = study.best_trial
-- 
2.43.0


From 8e00b7190e4c36b2ace8d8fb842f78916a01a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 13/22] fix: give the internal mesh object valid cell
 connectivity

The corner coordinates were passed where meshio expects point indices.
---
 fastvpinns/Geometry/geometry_2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 5471039..784a972 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -287,7 +287,9 @@ class Geometry_2D(Geometry):
             cells[i] = cell[np.argsort(angles)]
 
         # generate a meshio mesh object using the cells
-        self.mesh = meshio.Mesh(points=cells.reshape(-1, 2), cells=[("quad", cells.reshape(-1, 4))])
+        self.mesh = meshio.Mesh(
+            points=cells.reshape(-1, 2), cells=[("quad", np.arange(cells.size // 2).reshape(-1, 4))]
+        )
 
         # lets generate the boundary points, this function will return a dictionary of boundary points
         # the keys will be the boundary tags and values will be the list of boundary points
-- 
2.43.0


From 9262f8538ec61abf2dfec9acfed7f5aea73f1309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 14/22] fix: refuse to export onto a grid file without or with
 other points

---
 fastvpinns/Geometry/geometry_2d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 784a972..3e44976 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -487,6 +487,11 @@ class Geometry_2D(Geometry):
             )
             raise ValueError("Number of data names and solution columns are not equal")
 
+        # the grid file declares the number of points the solution has to have values for
+        num_points = next((int(line.split()[-1]) for line in data if "POINT_DATA" in line), None)
+        if num_points != solution.shape[0]:
+            raise ValueError("Number of solution rows and points of the grid file are not equal")
+
         # write the data to the output file
         with open(str(output_file_name), "w", encoding="utf-8") as FN:
             for line in data:
-- 
2.43.0


From f60aabdbb582f063685672d2a016575b4feaa339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 15/22] fix: evaluate the networks in the requested precision

Keras cast the inputs of a model to its default dtype (float32), so double precision
models were evaluated and differentiated at coordinates rounded to single precision.
---
 fastvpinns/model/model.py                | 2 +-
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 3cfc88e..f957631 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -60,7 +60,7 @@ class DenseModel(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel, self).__init__()
+        super(DenseModel, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index 94c094a..c5be60e 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -75,7 +75,7 @@ class DenseModel_Hard(tf.keras.Model):
         hessian=False,
         hard_constraint_function=None,
     ):
-        super(DenseModel_Hard, self).__init__()
+        super(DenseModel_Hard, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 2334b18..fe5532b 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -54,7 +54,7 @@ class DenseModel_Inverse(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse, self).__init__()
+        super(DenseModel_Inverse, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 4e08886..0c5ad3f 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -52,7 +52,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         activation="tanh",
         hessian=False,
     ):
-        super(DenseModel_Inverse_Domain, self).__init__()
+        super(DenseModel_Inverse_Domain, self).__init__(dtype=tensor_dtype)
         self.layer_dims = layer_dims
         self.use_attention = use_attention
         self.activation = activation
-- 
2.43.0


From f03044e585a7b246520d8b946f1e2f633f6f3214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 16/22] fix: hard constraints of double precision models failed
 when the model was built

build() calls the network with a placeholder of the Keras default dtype, which the
constraint function cannot combine with the double precision network output.
---
 fastvpinns/model/model_hard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index c5be60e..c6f4015 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -213,6 +213,8 @@ class DenseModel_Hard(tf.keras.Model):
         :return: Output tensor from the model
         :rtype: tf.Tensor
         """
+        # build() passes a placeholder of the Keras default dtype
+        inputs = tf.cast(inputs, self.tensor_dtype)
         x = inputs
 
         # Apply attention layer after input if flag is True
-- 
2.43.0


From db7d84ecbc3ec39ed5c3c4ad774f04bf08bf7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:00 +0000
Subject: [PATCH 17/22] fix: DenseModel_Inverse_Domain could not be created
 with attention

The model was built once before any of its layers existed, where call() already
needs the attention layer.
---
 fastvpinns/model/model_inverse_domain.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 0c5ad3f..0ee281f 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -140,15 +140,6 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         self.optimizer = tf.keras.optimizers.Adam(learning_rate=learning_rate_fn)
 
-        # build the model using the input shape of the first layer in self.layer_dims
-        input_shape = (None, self.layer_dims[0])
-        # build the model
-        self.build(input_shape=input_shape)
-        # Compile the model
-        self.compile(optimizer=self.optimizer)
-        # print model summary
-        self.summary()
-
         ## ----------------------------------------------------------------- ##
         ## --------------------- MODEL ARCHITECTURE ------------------------ ##
         ## ----------------------------------------------------------------- ##
-- 
2.43.0


From b83ceb8924ea9c5adee41bc680eb8b53effdcd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 18/22] fix: a model could not be trained any more after its
 first step had failed

A failure in the residual or the hard constraint while the first step was traced left
the optimizer without variables, and every later step raised 'Creating variables on a
non-first call to a function decorated with tf.function'.
---
 fastvpinns/model/model.py                | 4 ++++
 fastvpinns/model/model_hard.py           | 4 ++++
 fastvpinns/model/model_inverse.py        | 4 ++++
 fastvpinns/model/model_inverse_domain.py | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index f957631..9450b00 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -178,6 +178,10 @@ class DenseModel(tf.keras.Model):
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
 
+        # create the optimizer variables now: if the first training step fails while it is
+        # traced, tf.function does not allow a later step to create them
+        self.optimizer.build(self.trainable_variables)
+
         # print the summary of the model
         self.summary()
 
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index c6f4015..abec6a1 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -199,6 +199,10 @@ class DenseModel_Hard(tf.keras.Model):
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
 
+        # create the optimizer variables now: if the first training step fails while it is
+        # traced, tf.function does not allow a later step to create them
+        self.optimizer.build(self.trainable_variables)
+
         # print the summary of the model
         self.summary()
 
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index fe5532b..24f3692 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -190,6 +190,10 @@ class DenseModel_Inverse(tf.keras.Model):
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
 
+        # create the optimizer variables now: if the first training step fails while it is
+        # traced, tf.function does not allow a later step to create them
+        self.optimizer.build(self.trainable_variables)
+
         # print the summary of the model
         self.summary()
 
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index 0ee281f..e4731f9 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -175,6 +175,10 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
         self.compile(optimizer=self.optimizer)
         self.build(input_shape=(None, self.layer_dims[0]))
 
+        # create the optimizer variables now: if the first training step fails while it is
+        # traced, tf.function does not allow a later step to create them
+        self.optimizer.build(self.trainable_variables)
+
         # print the summary of the model
         self.summary()
 
-- 
2.43.0


From 9a1c3137342333c917d5112f63deafbb9467b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:48 +0000
Subject: [PATCH 19/22] fix: a step that failed while its graph was executed
 advanced the optimizer

The iteration counter (learning rate schedule, Adam bias correction) does not depend on
the loss, so it was incremented although an assertion or function of the residual
failed and no update took place.
---
 fastvpinns/model/model.py                | 5 ++++-
 fastvpinns/model/model_hard.py           | 5 ++++-
 fastvpinns/model/model_inverse.py        | 5 ++++-
 fastvpinns/model/model_inverse_domain.py | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 9450b00..05a4e7d 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -306,6 +306,9 @@ class DenseModel(tf.keras.Model):
 
         trainable_vars = self.trainable_variables
         self.gradients = tape.gradient(total_loss, trainable_vars)
-        self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
+        # no variable may change before every value of the step is there
+        computed = [total_loss] + [grad for grad in self.gradients if grad is not None]
+        with tf.control_dependencies(computed):
+            self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
 
         return {"loss_pde": total_pde_loss, "loss_dirichlet": boundary_loss, "loss": total_loss}
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index abec6a1..a7d222a 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -331,6 +331,9 @@ class DenseModel_Hard(tf.keras.Model):
 
         trainable_vars = self.trainable_variables
         self.gradients = tape.gradient(total_loss, trainable_vars)
-        self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
+        # no variable may change before every value of the step is there
+        computed = [total_loss] + [grad for grad in self.gradients if grad is not None]
+        with tf.control_dependencies(computed):
+            self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
 
         return {"loss_pde": total_pde_loss, "loss_dirichlet": boundary_loss, "loss": total_loss}
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 24f3692..5bd755a 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -331,7 +331,10 @@ class DenseModel_Inverse(tf.keras.Model):
 
         trainable_vars = self.trainable_variables
         self.gradients = tape.gradient(total_loss, trainable_vars)
-        self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
+        # no variable may change before every value of the step is there
+        computed = [total_loss] + [grad for grad in self.gradients if grad is not None]
+        with tf.control_dependencies(computed):
+            self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
 
         return {
             "loss_pde": total_pde_loss,
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index e4731f9..d2ee8fb 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -327,7 +327,10 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         trainable_vars = self.trainable_variables
         self.gradients = tape.gradient(total_loss, trainable_vars)
-        self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
+        # no variable may change before every value of the step is there
+        computed = [total_loss] + [grad for grad in self.gradients if grad is not None]
+        with tf.control_dependencies(computed):
+            self.optimizer.apply_gradients(zip(self.gradients, trainable_vars))
 
         return {
             "loss_pde": total_pde_loss,
-- 
2.43.0


From 1611b8c5201b1c6263fb3c968813bbe8ca07001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 20/22] fix: never run more trials at once than there are GPUs
 by default

---
 fastvpinns/hyperparameter_tuning/optuna_tuner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/hyperparameter_tuning/optuna_tuner.py b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
index 7968aec..e048bd9 100644
--- a/fastvpinns/hyperparameter_tuning/optuna_tuner.py
+++ b/fastvpinns/hyperparameter_tuning/optuna_tuner.py
@@ -54,7 +54,10 @@ class OptunaTuner:
             storage="sqlite:///fastvpinns_optuna.db",
             load_if_exists=True,
         )
-        n_jobs = min(len(self.gpus), self.n_jobs) if self.gpus else self.n_jobs
+        n_jobs = self.n_jobs
+        if self.gpus:
+            # a negative n_jobs asks for as many jobs as possible: one per GPU
+            n_jobs = min(len(self.gpus), n_jobs) if n_jobs >= 0 else len(self.gpus)
         study.optimize(self.objective_wrapper, n_trials=self.n_trials, n_jobs=n_jobs)
 
         print("Best trial:")
-- 
2.43.0


From 1cc0709790d5c7d89ad22e3ea0e0b3781288a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 21/22] fix: the attention layer computes in the precision of
 its model

Without a dtype it worked in single precision: double precision models with
attention lost half of their digits in predictions, losses and gradients.
---
 fastvpinns/model/model.py                | 2 +-
 fastvpinns/model/model_hard.py           | 2 +-
 fastvpinns/model/model_inverse.py        | 2 +-
 fastvpinns/model/model_inverse_domain.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fastvpinns/model/model.py b/fastvpinns/model/model.py
index 05a4e7d..0029684 100644
--- a/fastvpinns/model/model.py
+++ b/fastvpinns/model/model.py
@@ -172,7 +172,7 @@ class DenseModel(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_hard.py b/fastvpinns/model/model_hard.py
index a7d222a..b1aa3a6 100644
--- a/fastvpinns/model/model_hard.py
+++ b/fastvpinns/model/model_hard.py
@@ -193,7 +193,7 @@ class DenseModel_Hard(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse.py b/fastvpinns/model/model_inverse.py
index 5bd755a..8cd39ea 100644
--- a/fastvpinns/model/model_inverse.py
+++ b/fastvpinns/model/model_inverse.py
@@ -184,7 +184,7 @@ class DenseModel_Inverse(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
diff --git a/fastvpinns/model/model_inverse_domain.py b/fastvpinns/model/model_inverse_domain.py
index d2ee8fb..aa4a4ba 100644
--- a/fastvpinns/model/model_inverse_domain.py
+++ b/fastvpinns/model/model_inverse_domain.py
@@ -169,7 +169,7 @@ class DenseModel_Inverse_Domain(tf.keras.Model):
 
         # Add attention layer if required
         if self.use_attention:
-            self.attention_layer = layers.Attention()
+            self.attention_layer = layers.Attention(dtype=self.tensor_dtype)
 
         # Compile the model
         self.compile(optimizer=self.optimizer)
-- 
2.43.0


From 1cc8d355a124aec8efc910528bdeac8bb4d535ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:44 +0000
Subject: [PATCH 22/22] fix: an interrupt before gmsh was closed made every
 later mesh preparation of the process fail

The next attempt continued the half-built model of the interrupted one
("GEO curve with tag 1000 already exists") instead of starting afresh.
---
 fastvpinns/Geometry/geometry_2d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fastvpinns/Geometry/geometry_2d.py b/fastvpinns/Geometry/geometry_2d.py
index 3e44976..8fc7e54 100644
--- a/fastvpinns/Geometry/geometry_2d.py
+++ b/fastvpinns/Geometry/geometry_2d.py
@@ -355,7 +355,9 @@ class Geometry_2D(Geometry):
         """
 
         if self.mesh_generation_method == "internal":
-            # initialise the mesh
+            # initialise the mesh, afresh even if an interrupted attempt left gmsh initialised
+            if gmsh.isInitialized():
+                gmsh.finalize()
             gmsh.initialize()
 
             try:
-- 
2.43.0

