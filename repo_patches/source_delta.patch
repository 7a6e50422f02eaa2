From 199c24eb330ced91afa882ddd9bc7a88b4c95895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 01/22] fix: accumulate repeated nodal loads instead of
 overwriting them

---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..a2e33fb 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -321,7 +321,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From c701835225d1edea556450341601ee1804390a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 02/22] fix: spring element returns the documented 4x4 mass
 matrix

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..ea1ec58 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -442,7 +442,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From 8867d6609dfe133e3dc7118e8c9ebad371723838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 03/22] fix: spring takes its stiffness from the first entry of
 the material profile

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index ea1ec58..157a7bd 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -438,7 +438,7 @@ def spring(coord, stiff):
     Q = np.array([
         [nx, ny, 0, 0],
         [0, 0, nx, ny]])
-    stiff_mat = stiff * np.array([
+    stiff_mat = np.ravel(stiff)[0] * np.array([
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-- 
2.43.0


From 32bec6293445d894766ea11bc6b3036a8804c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 04/22] fix: beam2D reads the density as a scalar

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 157a7bd..b506389 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -621,7 +621,7 @@ def beam2D(coord, params):
     if len(params) == 3:
         dens = 1.0
     else:
-        dens = params[3:]
+        dens = params[3]
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [140, 0, 0, 70, 0, 0],
-- 
2.43.0


From 2fc3818a12c96f248fb82e5cd09ac53612e1cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 05/22] fix: beam elements project on the element axis and its
 normal

---
 solidspy/uelutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index b506389..ed2ae37 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -543,9 +543,9 @@ def beam2DU(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [ny, nx, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment = params[:2]
     bending_stiff = area_moment*young/L**3
@@ -601,11 +601,11 @@ def beam2D(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [nx, -ny, 0, 0, 0, 0],
-        [ny, nx, 0, 0, 0, 0],
+        [nx, ny, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, nx, -ny, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, nx, ny, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment, area = params[:3]
     bending_stiff = area_moment * young
-- 
2.43.0


From e665d2a5dfbf537e90c41e5e7a8e5e7716c9fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 06/22] fix: beam2DU accepts the optional cross-sectional area
 being omitted

---
 solidspy/uelutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index ed2ae37..99b965e 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -558,7 +558,8 @@ def beam2DU(coord, params):
         dens = 1.0
         area = 1.0
     else:
-        dens, area = params[2:]
+        dens = params[2]
+        area = params[3] if len(params) > 3 else 1.0
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [156, 22*L, 54, -13*L],
-- 
2.43.0


From 8313840166efa1276801ce20fc333251e6d2035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 07/22] fix: strains of 3-noded triangles are evaluated at
 three points

---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..bbb31dc 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From 9543db21c79fac5e750495383021e64ef0b94a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 08/22] fix: order the recovery points of 4-noded quads as the
 nodes of the element

---
 solidspy/femutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index bbb31dc..8d1cb7e 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -766,6 +766,7 @@ def str_el4(coord, ul):
     epsG = np.zeros([3, 4])
     xl = np.zeros([4, 2])
     gpts, _ = gau.gauss_nd(2)
+    gpts = gpts[[0, 2, 3, 1], :]  # counterclockwise, as the nodes
     for i in range(gpts.shape[0]):
         ri, si = gpts[i, :]
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
-- 
2.43.0


From 7f2da913c7b5f6a0220b76b6fe12bcf63bfe069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 09/22] fix: vertical coordinate of the Gauss points in the
 strain routines

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 8d1cb7e..07c3128 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -707,7 +707,7 @@ def str_el3(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -739,7 +739,7 @@ def str_el6(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -772,7 +772,7 @@ def str_el4(coord, ul):
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
-- 
2.43.0


From f37967fc80f41ba077f72dc95fd26bd72845334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 10/22] fix: strain_nodes accepts material profiles that
 include the density

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..60e2759 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -369,7 +369,7 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     IELCON = elements[:, 3:]
 
     for el in range(nelems):
-        young, poisson = mats[int(elements[el, 2]), :]
+        young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
         fact1 = young/(1 - poisson**2)
         fact2 = poisson*young/(1 - poisson**2)
-- 
2.43.0


From 3e9516e8fa00656045872cc9f25cbe67444f8e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 11/22] fix: strain_nodes rejects element types without strain
 recovery

---
 solidspy/postprocesor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 60e2759..884cb35 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -383,6 +383,8 @@ def strain_nodes(nodes, elements, mats, sol_complete):
             epsG, _ = fe.str_el6(elcoor, ul)
         elif iet == 3:
             epsG, _ = fe.str_el3(elcoor, ul)
+        else:
+            raise ValueError("Strains are not available for this element.")
         for cont, node in enumerate(IELCON[el, :]):
             E_nodes[node, 0] += epsG[cont, 0]
             E_nodes[node, 1] += epsG[cont, 1]
-- 
2.43.0


From da8f7395234ad28ae2419969196b2d0a59ad74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 12/22] fix: use np.nan, np.NaN was removed in NumPy 2

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 884cb35..b9c8f22 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -598,8 +598,8 @@ def eigvals(mat, tol=1e-6):
     if np.abs(mat).max() < tol:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From 04a78253f7fa73b64abfe436a006cabbada969bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 13/22] fix: eigvals does not treat small tensors as zero

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index b9c8f22..4f7a234 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -595,7 +595,7 @@ def eigvals(mat, tol=1e-6):
     True
 
     """
-    if np.abs(mat).max() < tol:
+    if np.abs(mat).max() == 0.0:
         eig1 = 0.0
         eig2 = 0.0
         vec1 = np.array([np.nan, np.nan])
-- 
2.43.0


From ead30d07e8318904d6043c84d81ebec4b5879498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 14/22] fix: fields_plot treats beams with axial force as
 structural elements

---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 4f7a234..91302c7 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -49,7 +49,8 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
     # Check for structural elements in the mesh
     struct_pos = 5 in elements[:, 1] or \
              6 in elements[:, 1] or \
-             7 in elements[:, 1]
+             7 in elements[:, 1] or \
+             8 in elements[:, 1]
     if struct_pos:
         # Still not implemented visualization for structural elements
         print(disp)
-- 
2.43.0


From 8f6c24b3938a52ab17907da284630fcf187a7348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 15/22] fix: call each triangulation plot with the arguments it
 takes

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 91302c7..7f8f4b1 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -102,10 +102,9 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0


From 5240f16cf91c9626fe434c34eb1ac34a92831047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 16/22] fix: couple the out-of-plane component in the 4x4
 constitutive matrices

---
 solidspy/femutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 07c3128..af4dade 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -608,10 +608,10 @@ def elast_mat_2d(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-    [2*mu + lamda, lamda, 0, 0],
-    [lamda, 2*mu + lamda, 0, 0],
+    [2*mu + lamda, lamda, 0, lamda],
+    [lamda, 2*mu + lamda, 0, lamda],
     [0, 0, mu, 0],
-    [0, 0, 0, 2*mu + lamda]])
+    [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
@@ -638,10 +638,10 @@ def elast_mat_axi(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-        [2*mu + lamda, lamda, 0, 0],
-        [lamda, 2*mu + lamda, 0, 0],
+        [2*mu + lamda, lamda, 0, lamda],
+        [lamda, 2*mu + lamda, 0, lamda],
         [0, 0, mu, 0],
-        [0, 0, 0, 2*mu + lamda]])
+        [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
-- 
2.43.0


From ff98eb7b3b252c6aa62722ed912c24e33ddb8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 17/22] fix: number image dofs with the number of their
 reference dofs

---
 solidspy/blochutil.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index a05f591..4035f69 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -46,17 +46,12 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
 
     """
     new_num = []
-    cont = 0
     for cont_dof in range(ndofs):
         if cont_dof in dofs_ima:
-            cont += 1
             ref_dof = dofs_ref[dofs_ima.index(cont_dof)]
-            if ref_dof < cont_dof:
-                new_num.append(ref_dof)
-            else:
-                new_num.append(ref_dof - cont)
         else:
-            new_num.append(cont_dof - cont)
+            ref_dof = cont_dof
+        new_num.append(ref_dof - sum(ima < ref_dof for ima in dofs_ima))
     return new_num
 
 
-- 
2.43.0


From 82c1d0eb116f5fb51327c946997e7f87139e8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 18/22] fix: find the input files in folders given without a
 trailing slash

---
 solidspy/preprocesor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index dd26468..dc1bb11 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -7,26 +7,27 @@ This module contains functions to preprocess the input files to compute
 a Finite Element Analysis.
 
 """
+import os
 import sys
 import numpy as np
 
 
 def readin(folder=""):
     """Read the input files"""
-    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)
-    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)
-    elements = np.loadtxt(folder + 'eles.txt', ndmin=2, dtype=int)
-    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)
+    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2)
+    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
+    elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2, dtype=int)
+    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2)
 
     return nodes, mats, elements, loads
 
 
 def echomod(nodes, mats, elements, loads, folder=""):
     """Create echoes of the model input files"""
-    np.savetxt(folder + "KNODES.txt", nodes, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KMATES.txt", mats, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KELEMS.txt", elements, fmt='%d', delimiter=' ')
-    np.savetxt(folder + "KLOADS.txt", loads, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KNODES.txt"), nodes, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KMATES.txt"), mats, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KELEMS.txt"), elements, fmt='%d', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KLOADS.txt"), loads, fmt='%5.2f', delimiter=' ')
 
 
 def initial_params():
-- 
2.43.0


From 9f6c583d9d529dab9a2bf5a68bb336b08d4f7458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 19/22] fix: ele_writer handles the 9-noded quadrilateral

---
 solidspy/preprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index dc1bb11..27c01a3 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -98,7 +98,8 @@ def ele_writer(cells, cell_data, ele_tag, phy_sur,  ele_type, mat_tag, nini):
     eles = cells[ele_tag]
     dict_nnode = {'triangle': 3,
                   'triangle6': 6,
-                  'quad': 4}
+                  'quad': 4,
+                  'quad9': 9}
     nnode = dict_nnode[ele_tag]
     phy_surface = cell_data[ele_tag]['gmsh:physical']
     ele_id = [cont for cont, _ in enumerate(phy_surface[:])
-- 
2.43.0


From 99e6baa7dfbf9d1959072e3e68971f3657bf300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:44 +0000
Subject: [PATCH 20/22] fix: judge degenerate elements by their shape and not
 by their size

---
 solidspy/femutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index af4dade..65ae222 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -526,7 +526,8 @@ def jacoper(dNdr, coord):
     """
     jaco = dNdr @ coord
     det = np.linalg.det(jaco)
-    if np.isclose(np.abs(det), 0.0):
+    scale = np.prod(np.linalg.norm(jaco, axis=1))
+    if np.isclose(np.abs(det), 0.0, atol=1e-8*scale):
         msg = "Jacobian close to zero. Check the shape of your elements!"
         raise ValueError(msg)
     jaco_inv = np.linalg.inv(jaco)
-- 
2.43.0


From 9fcc2b62c6c84d239a815370e58e4d3b681ed4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 21/22] fix: plot_node_field plots fields given as a single
 column

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 7f8f4b1..8fcae90 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -160,7 +160,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-        if nfields == 1:
+        if len(field.shape) == 1:
             current_field = field
         else:
             current_field = field[:, cont]
-- 
2.43.0


From b415541785bcef1fb060ea100db5579558a0814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 22/22] fix: plot_truss draws the members of unstressed trusses

---
 solidspy/postprocesor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 8fcae90..4956bb1 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -215,7 +215,10 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
         scaled_stress = np.ones_like(elements[:, 0])
     else:
         max_stress = max(-stresses.min(), stresses.max())
-        scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        if max_stress > 0:
+            scaled_stress = 0.5*(stresses + max_stress)/max_stress
+        else:
+            scaled_stress = 0.5*np.ones(len(stresses))
     if max_area - min_area > 1e-6:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
             + min_val
-- 
2.43.0

