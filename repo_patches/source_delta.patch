From 8999d2ac279078f38a0fb4b3f9507b7314cd1b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 01/44] fix: config mass converters looked up a unit name that
 does not exist (KeyError)

MassInternalToOut and MassInToInternal used the key 'E+10M_sun/h'; the
admissible unit is called 'E+10Msun/h', so every call raised KeyError.
---
 cosmic_profiles/common/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 24264c4..0da9c14 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -166,7 +166,7 @@ def MassInternalToOut(mass_arr):
     :type mass_arr: floats"""
     global OutUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    int_to_out = np.float32(mass_in_g_d['E+10M_sun/h']/OutUnitMass_in_g)
+    int_to_out = np.float32(mass_in_g_d['E+10Msun/h']/OutUnitMass_in_g)
     return mass_arr*int_to_out
 
 def VelInternalToOut(vel_arr):
@@ -196,7 +196,7 @@ def MassInToInternal(mass_arr):
     :type mass_arr: floats"""
     global InUnitMass_in_g
     length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
-    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10M_sun/h'])
+    in_to_int = np.float32(InUnitMass_in_g/mass_in_g_d['E+10Msun/h'])
     return mass_arr*in_to_int
 
 def VelInToInternal(vel_arr):
-- 
2.43.0


From 60f93fadf87fdd48771c1f3674115cd61c6ac56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 02/44] fix: objects straddling a periodic box face were not
 unwrapped correctly

The compiled helper reflected particles (L_BOX-x) instead of translating
them, tested the z-separation with y-coordinates and used a reference other
than the object center; the Python helper averaged the still wrapped
reference particles, so an object split between two faces was not unwrapped.
Shapes and densities of such objects were wrong or NaN. Unwrap the reference
particles before averaging, and translate particles to the periodic image
closest to the object center.
---
 cosmic_profiles/common/python_routines.py     |  4 ++-
 .../cython_helpers/helper_class.pxd           |  2 +-
 .../cython_helpers/helper_class.pyx           | 28 ++++++++-----------
 .../dens_profs/dens_profs_algos.pyx           |  6 ++--
 .../shape_profs/shape_profs_algos.pyx         |  8 +++---
 5 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 2466ef3..b06806c 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -513,7 +513,9 @@ def respectPBCNoRef(xyz, L_BOX = None):
         xyz_out = xyz.copy() # Otherwise changes would be reflected in outer scope (np.array is mutable).
         rng = default_rng(seed=0) # Reference particle does not matter, i.e. ref = 0 is an option, but it is better to average over some random particles
         choose = rng.choice(np.arange(len(xyz)), (min(50,len(xyz)),), replace = False)
-        ref_xyz = np.average(xyz_out[choose], axis = 0)
+        xyz_choose = xyz_out[choose] # Unwrap those particles first, otherwise average of an object straddling the box boundary ends up in the middle of the box
+        xyz_choose = xyz_choose-L_BOX*np.round((xyz_choose-xyz_choose[0])/L_BOX)
+        ref_xyz = np.average(xyz_choose, axis = 0)
         dist_x = xyz_out[:,0]-ref_xyz[0]
         dist_y = xyz_out[:,1]-ref_xyz[1]
         dist_z = xyz_out[:,2]-ref_xyz[2]
diff --git a/cosmic_profiles/cython_helpers/helper_class.pxd b/cosmic_profiles/cython_helpers/helper_class.pxd
index a55c64d..330f723 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pxd
+++ b/cosmic_profiles/cython_helpers/helper_class.pxd
@@ -20,7 +20,7 @@ cdef class CythonHelpers:
     cdef void ZHEEVR(complex[::1,:] H, double * eigvals, complex[::1,:] Z, int nrows) nogil
 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double[:] center, double L_BOX) nogil
     
     @staticmethod
     cdef double[:] calcDensProfBruteForceSph(double[:,:] xyz, double[:] masses, double[:] center, float r_200, double[:] ROverR200, double[:] dens_prof, int[:] shell) nogil
diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 99bf90f..3a4301c 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -166,15 +166,17 @@ cdef class CythonHelpers:
     @cython.boundscheck(False)
     @cython.wraparound(False) 
     @staticmethod
-    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, float L_BOX) nogil:
+    cdef double[:,:] respectPBCNoRef(double[:,:] xyz, double[:] center, double L_BOX) nogil:
         """
         Modify xyz inplace so that it respects the box periodicity.
         
-        If point distro xyz has particles separated in any Cartesian direction
-        by more than L_BOX/2, reflect those particles along L_BOX/2
+        If a particle is separated from the object center in any Cartesian direction
+        by more than L_BOX/2, translate it by L_BOX along that direction
         
         :param xyz: coordinates of particles of type 1 or type 4
         :type xyz: (N^3x3) floats
+        :param center: object center with respect to which particles are unwrapped
+        :type center: (3,) floats
         :param L_BOX: periodicity of box (0.0 if non-periodic)
         :type L_BOX: float
         :return: updated coordinates of particles of type 1 or type 4
@@ -182,20 +184,14 @@ cdef class CythonHelpers:
         
         if L_BOX == 0.0:
             return xyz
-        cdef int ref = 0
-        cdef float dist_x
-        cdef float dist_y
-        cdef float dist_z
+        cdef int i
+        cdef int k
         for i in range(xyz.shape[0]):
-            dist_x = CythonHelpers.cython_abs(xyz[ref, 0]-xyz[i,0])
-            if dist_x > L_BOX/2:
-                xyz[i,0] = L_BOX-xyz[i,0] # Reflect x-distances along L_BOX/2
-            dist_y = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_y > L_BOX/2:
-                xyz[i,1] = L_BOX-xyz[i,1] # Reflect y-distances along L_BOX/2
-            dist_z = CythonHelpers.cython_abs(xyz[ref, 1]-xyz[i,1])
-            if dist_z > L_BOX/2:
-                xyz[i,2] = L_BOX-xyz[i,2] # Reflect z-distances along L_BOX/2
+            for k in range(3):
+                if xyz[i,k]-center[k] > L_BOX/2:
+                    xyz[i,k] = xyz[i,k]-L_BOX
+                elif xyz[i,k]-center[k] < -L_BOX/2:
+                    xyz[i,k] = xyz[i,k]+L_BOX
         return xyz
     
     @cython.boundscheck(False)
diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 987ecf0..1c411de 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -103,7 +103,7 @@ def calcDensProfsSphDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         for n in range(obj_size[p]):
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         dens_profs[p] = CythonHelpers.calcDensProfBruteForceSph(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], r200s[p], bin_edges_tiled[openmp.omp_get_thread_num()], dens_profs[p], shell[openmp.omp_get_thread_num()])
     del bin_edges; del obj_size; del idx_cat; del shell; del bin_edges_tiled; del xyz_obj; del m_obj; del centers
     return dens_profs.base
@@ -211,7 +211,7 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
         for n in range(obj_size[p]):
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         dens_profs[p] = CythonHelpers.calcDensProfBruteForceEll(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_obj_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], r200s[p], a_interpol[p], b_interpol[p], c_interpol[p], major_interpol[p], inter_interpol[p], minor_interpol[p], dens_profs[p], shell[openmp.omp_get_thread_num()])
     del bin_edges; del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del a_interpol; del b_interpol; del c_interpol; del major_interpol; del inter_interpol; del minor_interpol; del xyz_obj_princ; del a; del b; del c; del major; del inter; del minor
@@ -270,7 +270,7 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         for n in range(obj_size[p]):
             xyz_obj[n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[n] = masses[idx_cat[offsets[p]+n]]
-        xyz_obj[:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[:obj_size[p]], L_BOX)
+        xyz_obj[:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[:obj_size[p]], centers[p], L_BOX)
         dists = np.linalg.norm(xyz_obj.base[:obj_size[p]]-centers.base[p], axis = 1)
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 88c357e..2c5e543 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -596,7 +596,7 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         morph_info[openmp.omp_get_thread_num(),:,:] = calcObjMorphLocal(morph_info[openmp.omp_get_thread_num(),:,:], r200[p], r_over_r200_tiled[openmp.omp_get_thread_num()], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], shell[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
         q[p] = morph_info[openmp.omp_get_thread_num(),1]
@@ -704,7 +704,7 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
             xyz_obj[openmp.omp_get_thread_num(),n] = xyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         morph_info[openmp.omp_get_thread_num(),:] = calcObjMorphGlobal(morph_info[openmp.omp_get_thread_num(),:], r200[p], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], ellipsoid[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
         q[p] = morph_info[openmp.omp_get_thread_num(),1]
@@ -823,7 +823,7 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         vcenters[p] = CythonHelpers.calcCoM(vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], vcenters[p])
         morph_info[openmp.omp_get_thread_num(),:,:] = calcObjMorphLocalVelDisp(morph_info[openmp.omp_get_thread_num(),:,:], r200[p], r_over_r200_tiled[openmp.omp_get_thread_num()], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], shell[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], vcenters[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, reduced, shell_based)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
@@ -939,7 +939,7 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
             vxyz_obj[openmp.omp_get_thread_num(),n] = vxyz[idx_cat[offsets[p]+n]]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
-        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], L_BOX)
+        xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
         vcenters[p] = CythonHelpers.calcCoM(vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], vcenters[p])
         morph_info[openmp.omp_get_thread_num(),:] = calcObjMorphGlobalVelDisp(morph_info[openmp.omp_get_thread_num(),:], r200[p], xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], vxyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], xyz_princ[openmp.omp_get_thread_num(),:obj_size[p]], m_obj[openmp.omp_get_thread_num(),:obj_size[p]], ellipsoid[openmp.omp_get_thread_num()], r_ell[openmp.omp_get_thread_num()], centers[p], vcenters[p], shape_tensor[:,:,openmp.omp_get_thread_num()], eigval[:,openmp.omp_get_thread_num()], eigvec[:,:,openmp.omp_get_thread_num()], IT_TOL, IT_WALL, IT_MIN, SAFE, reduced)
         d[p] = morph_info[openmp.omp_get_thread_num(),0]
-- 
2.43.0


From a6515ea3b26416431a1c0e36044a2ad44e35afcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 03/44] fix: legitimate zero components of principal axes were
 turned into NaN

Entries of objects/radii at which the shape algorithm did not converge are
NaN, but the marking went through every axis component that happens to be
exactly 0.0, e.g. of an ellipsoid aligned with the coordinate axes.
---
 .../shape_profs/shape_profs_algos.pyx         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index 2c5e543..ecb8fc4 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -619,9 +619,9 @@ def calcMorphLocal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -727,9 +727,9 @@ def calcMorphGlobal(double[:,:] xyz, double[:] masses, double[:] r200, int[:] id
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -847,9 +847,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
@@ -963,9 +963,9 @@ def calcMorphGlobalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses,
     d.base[d.base==0.0] = np.nan
     s.base[s.base==0.0] = np.nan
     q.base[q.base==0.0] = np.nan
-    minor[minor==0.0] = np.nan
-    inter[inter==0.0] = np.nan
-    major[major==0.0] = np.nan
+    minor[np.isnan(d.base)] = np.nan
+    inter[np.isnan(d.base)] = np.nan
+    major[np.isnan(d.base)] = np.nan
     del major_x; del major_y; del major_z; del inter_x; del inter_y; del inter_z; del minor_x; del minor_y; del minor_z
     # Recentre objects into box if they have fallen outside
     centers = recentreObject(centers.base, L_BOX)
-- 
2.43.0


From a44ae07d2378aa29564cb219870c29b691d44a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 04/44] fix: local velocity dispersion shapes ignored the
 velocities

calcMorphLocalVelDisp never copied the velocities of the object into its
work array, so the tensor was zero and every local velocity shape NaN.
---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index ecb8fc4..c3b3e36 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -821,6 +821,9 @@ def calcMorphLocalVelDisp(double[:,:] xyz, double[:,:] vxyz, double[:] masses, d
             xyz_obj[openmp.omp_get_thread_num(),n,0] = xyz[idx_cat[offsets[p]+n],0]
             xyz_obj[openmp.omp_get_thread_num(),n,1] = xyz[idx_cat[offsets[p]+n],1]
             xyz_obj[openmp.omp_get_thread_num(),n,2] = xyz[idx_cat[offsets[p]+n],2]
+            vxyz_obj[openmp.omp_get_thread_num(),n,0] = vxyz[idx_cat[offsets[p]+n],0]
+            vxyz_obj[openmp.omp_get_thread_num(),n,1] = vxyz[idx_cat[offsets[p]+n],1]
+            vxyz_obj[openmp.omp_get_thread_num(),n,2] = vxyz[idx_cat[offsets[p]+n],2]
             m_obj[openmp.omp_get_thread_num(),n] = masses[idx_cat[offsets[p]+n]]
             m[p] = m[p] + masses[idx_cat[offsets[p]+n]]
         xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]] = CythonHelpers.respectPBCNoRef(xyz_obj[openmp.omp_get_thread_num(),:obj_size[p]], centers[p], L_BOX)
-- 
2.43.0


From dc5aba26f31bb74951a189f4817f6e5ed017e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 05/44] fix: getShapeCatVelGlobal passed two arguments too many
 (TypeError)

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 82aecca..e960c94 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -656,7 +656,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(idx_cat, obj_size, obj_numbers)
             suffix = '_v{}_'.format(self.OBJ_TYPE)
-            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, self.CENTER, self.SAFE, REDUCED, suffix)
+            d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
             l_internal, m_internal, vel_internal = config.getLMVInternal()
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
-- 
2.43.0


From 58fdeb3b4b803b484ec4807deb74da90b91fe9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 06/44] fix: ellipsoidal density profiles overwrote the
 object's particle indices

calcDensProfsEllDirectBinning replaced the catalogue entries of every object
by a single index before reading the particles, so estDensProfs(...,
spherical = False) returned NaN everywhere.
---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index 1c411de..c96f612 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -167,7 +167,6 @@ def calcDensProfsEllDirectBinning(double[:,:] xyz, double[:] masses, double[:] r
     cdef double[:,:,:] inter_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     cdef double[:,:,:] minor_interpol = np.zeros((nb_objs,r_res,3), dtype = np.float64)
     for p in range(nb_objs):
-        idx_cat.base[offsets[p]:offsets[p+1]] = np.array(idx_cat[p])
         r_vec = np.float64(a.base[p])
         a_inter = interp1d(r_vec, a.base[p], bounds_error=False, fill_value='extrapolate')
         b_inter = interp1d(r_vec, b.base[p], bounds_error=False, fill_value='extrapolate')
-- 
2.43.0


From 351cada7d3160f60ff1c71ac2593da1e1e6d6efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 07/44] fix: plotLocalEpsHist raised TypeError for every input

getLocalEpsHist did not hand over the masses to getCatWithinFracR200, which
itself used .base on a plain array, dropped L_BOX when unwrapping and passed
the query_ball_point keyword n_jobs removed from scipy.
---
 cosmic_profiles/common/python_routines.py        | 8 ++++----
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index b06806c..ef9205e 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -595,15 +595,15 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
     for idx in range(len(obj_size_in)): # Calculate centers of objects
         xyz_ = respectPBCNoRef(xyz[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], L_BOX)
         if CENTER == 'mode':
-            centers.base[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
+            centers[idx] = calcMode(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]], max((max(xyz_[:,0])-min(xyz_[:,0]), max(xyz_[:,1])-min(xyz_[:,1]), max(xyz_[:,2])-min(xyz_[:,2]))))
         else:
-            centers.base[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
+            centers[idx] = calcCoM(xyz_, masses[cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]])
     remnant = []
     for idx in range(len(obj_size_in)):
         obj = cat_in[np.sum(obj_size_in[:idx]):np.sum(obj_size_in[:idx+1])]
-        xyz_ = respectPBCNoRef(xyz[obj])
+        xyz_ = respectPBCNoRef(xyz[obj], L_BOX)
         tree = cKDTree(xyz_, leafsize=2, balanced_tree = False)
-        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200, n_jobs=-1)
+        all_nn_idxs = tree.query_ball_point(centers[idx], r=r200[idx]*frac_r200)
         if all_nn_idxs != []:
             cat_out = np.hstack((cat_out, np.array(obj)[all_nn_idxs]))
             obj_size_out[idx] = len(all_nn_idxs)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index bc6b308..37fc824 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -421,7 +421,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
     
     if rank == 0:
         # Update h_cat so that only particles within r200 are considered
-        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, L_BOX, CENTER, r200, frac_r200)
+        idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
-- 
2.43.0


From 0c322de3649b1516739b05a119efed21aab23a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 08/44] fix: relative CAT_DEST/VIZ_DEST were created in the
 package directory

The destination was created relative to the installed package while the files
are written relative to the current working directory, so that a relative,
not yet existing destination failed with FileNotFoundError.
---
 cosmic_profiles/common/cosmic_base_class.pyx        |  8 ++++----
 cosmic_profiles/dens_profs/dens_profs_tools.py      |  2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx |  4 ++--
 cosmic_profiles/shape_profs/shape_profs_tools.py    | 10 +++++-----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index dcb1a96..c2e36b7 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -468,7 +468,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -522,7 +522,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -583,7 +583,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
@@ -641,7 +641,7 @@ cdef class CosmicBase:
                 major = np.array([])
             
             # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
             np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
             np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
             np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 8889f1a..ffb5d3e 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -155,7 +155,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         best_fit_dict = getModelParsDict(best_fit, method['profile'])
         del r200
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Go to outgoing unit system
         l_internal, m_internal, vel_internal = config.getLMVInternal()
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e960c94..aafd913 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -165,7 +165,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
                                 
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
@@ -260,7 +260,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             del obj_m
         
             # Create VIZ_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)], cwd=os.path.join(currentdir))
+            subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
             d = config.LengthInternalToOut(d)
diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 37fc824..9f977ed 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -149,7 +149,7 @@ def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         ERROR_METHOD = "median_quantile"
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Q
         plt.figure()
@@ -278,7 +278,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -333,7 +333,7 @@ def getGlobalTHist(VIZ_DEST, SNAP, start_time, obj_masses, obj_centers, d, q, s,
         t = np.nan_to_num(t)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # T counting
         plt.figure()
@@ -379,7 +379,7 @@ def getGlobalEpsHist(xyz, masses, idx_cat, obj_size, L_BOX, CENTER, VIZ_DEST, SN
     
     if rank == 0:
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         eps = getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER)
         plt.figure()
@@ -424,7 +424,7 @@ def getLocalEpsHist(xyz, masses, r200, idx_cat, obj_size, L_BOX, CENTER, VIZ_DES
         idx_cat_new, obj_size_new = getCatWithinFracR200(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, r200, frac_r200)
         
         # Create VIZ_DEST if not available
-        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)], cwd=os.path.join(currentdir))
+        subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Direct fitting result prep, needed for both D and A
         eps = getEpsilon(idx_cat_new, obj_size_new, xyz, masses, L_BOX, CENTER)
-- 
2.43.0


From a727dc63561855914acb6cc5e77c17ea46000d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 09/44] fix: blocks of Gadget format II snapshots were never
 found

The block name read from the file is a bytes object which never equals the
str that is searched for, so that the reader exited with 'block not found'.
---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 5575124..a1573e9 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -118,7 +118,7 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
     if format==2:
       f.seek(4, os.SEEK_CUR)
       curblock = f.read(4)
-      if (block == curblock):
+      if (block.encode() == curblock):
         found = True
       f.seek(8, os.SEEK_CUR)  
     else:
-- 
2.43.0


From b351ebfba14cbdc6de200a775ac45fd7b9cdd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 10/44] fix: single-precision Gadget I and II snapshots could
 not be read

The reader assumed double precision for all blocks and exited for the
standard single-precision files; detect the precision from the block size as
is already done for the IDs.
---
 cosmic_profiles/gadget/readsnap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index a1573e9..d362f8b 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -356,6 +356,9 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
         
+    if block!="ID  " and curpartnum>0 and np.dtype(dt).itemsize*curpartnum == blocksize * 2: # Block is in single precision
+      dt = np.dtype((np.float32,np.dtype(dt).shape))
+
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
       sys.exit()
-- 
2.43.0


From 7e0d2ce083a6b15a397bce1c87b299c59c8d0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 11/44] fix: R200 of Gadget halos was stale after
 updateInUnitSystem

getFoFSHData caches the radii converted to internal units, but the in unit
length was not part of the cache key.
---
 cosmic_profiles/gadget/read_fof.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 5fb7510..8d51b53 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -42,7 +42,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, in_unit_length_in_cm): # r200s depend on the in unit length, hence it must be part of the cache key
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -63,7 +63,7 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         count_fof = 0
         count_sh = 0
         l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
+        l_curr_over_target = in_unit_length_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -134,5 +134,5 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
     if(not hasattr(getFoFSHData, "inner")):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE)
\ No newline at end of file
+    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, config.InUnitLength_in_cm)
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, config.InUnitLength_in_cm)
\ No newline at end of file
-- 
2.43.0


From f72243c9928518eea80597e889e23e1f930cc470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 12/44] fix: kernel density of an object with a particle right
 at its center raised ZeroDivisionError

---
 cosmic_profiles/dens_profs/dens_profs_algos.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_algos.pyx b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
index c96f612..a2d1b4f 100644
--- a/cosmic_profiles/dens_profs/dens_profs_algos.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_algos.pyx
@@ -274,7 +274,8 @@ def calcDensProfsKernelBased(double[:,:] xyz, double[:] masses, double[:] r200s,
         hs = 0.005*r200s[p]*(dists.base/(0.1*r200s[p]))**(0.5)
         for r_idx in prange(r_res, schedule = 'dynamic', nogil = True):
             for n in range(obj_size[p]):
-                dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
+                if dists[n] > 0.0: # A particle right at the center has a kernel of zero width, i.e. it does not contribute at any radius > 0
+                    dens_profs[p][r_idx] += m_obj[n]*CythonHelpers.calcKTilde(r_over_r200[r_idx]*r200s[p], dists[n], hs[n])/(hs[n]**3)
     del obj_size; del idx_cat; del shell; del xyz_obj; del m_obj; del centers
     del dists; del hs
     return dens_profs.base
\ No newline at end of file
-- 
2.43.0


From 8018c1223d7d9c3385c9812a4ac2aaa798a7a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 13/44] fix: multi-file HDF5 snapshots with a file lacking a
 particle type could not be read

---
 cosmic_profiles/gadget/readgadget.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 56dceca..04efd4c 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -185,6 +185,8 @@ def read_block(snapshot, block, ptype, verbose=False):
 
                 # Read number of particles in the file and read the data
                 npart = header(filename).npart[pt]
+                if npart == 0: # Gadget omits the group of a particle type in files that do not contain any such particles
+                    continue
                 array[offset:offset+npart] = read_field(filename, block, pt)
                 offset += npart   
 
-- 
2.43.0


From 8b2601d9c0f65729e15152c8bbc3a81fe810dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 14/44] fix: cached functions lost the dtype of their array
 arguments, catalogues without subhalos raised ValueError

---
 cosmic_profiles/common/caching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/caching.py b/cosmic_profiles/common/caching.py
index 4781ba1..5a350d7 100644
--- a/cosmic_profiles/common/caching.py
+++ b/cosmic_profiles/common/caching.py
@@ -275,7 +275,7 @@ def np_cache_factory(nb_arrs, nb_lists):
             for arg in args_cached:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                args_l[arr_nb] = np.array(args_l[arr_nb]).reshape(dims[arr_nb])
+                args_l[arr_nb] = np.array(args_l[arr_nb], dtype=dims[arr_nb][1]).reshape(dims[arr_nb][0])
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = [list(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))]
             return function(*args_l)
@@ -287,7 +287,7 @@ def np_cache_factory(nb_arrs, nb_lists):
             for arg in args:
                 args_l.append(arg)
             for arr_nb in range(nb_arrs):
-                dims.append(args_l[arr_nb].shape)
+                dims.append((args_l[arr_nb].shape, args_l[arr_nb].dtype)) # Without the dtype, empty integer arrays would come back as floats
                 args_l[arr_nb] = tuple(args_l[arr_nb].flatten())
             for list_nb in np.arange(nb_arrs, nb_arrs + nb_lists):
                 args_l[list_nb] = tuple([tuple(args_l[list_nb][run]) for run in range(len(args_l[list_nb]))])
-- 
2.43.0


From ac4374e94763a8fac8d923631ebb107f41a2bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 15/44] fix: a fixed rho_s was ignored by density profile fits,
 other fixed parameters drifted with trust-constr

---
 .../dens_profs/dens_profs_tools.py            | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index ffb5d3e..39634f2 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -263,6 +263,12 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
     median = median[~np.isnan(median)]
     # Set initial guess and minimize scalar function
     try:
+        if 'rho_s' in method:
+            rho_s_lbound = method['rho_s']/np.average(median) # Median is rescaled for fitting
+            rho_s_rbound = rho_s_lbound
+        else:
+            rho_s_lbound = 1e-7
+            rho_s_rbound = np.inf
         if method['profile'] == 'einasto':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -277,8 +283,10 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 0.18, r200/5]) # Note: alpha = 0.18 gives ~ NFW
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (r_s_lbound, r_s_rbound)]
+            lbounds, rbounds = np.transpose(bounds)
+            res = optimize.minimize(toMinimize, np.clip(iguess, lbounds, rbounds), method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = bounds) # Only hand over rescaled median!
+            best_fit = np.clip(res.x, lbounds, rbounds)
         elif method['profile'] == 'alpha_beta_gamma':
             if 'alpha' in method:
                 alpha_lbound = method['alpha']
@@ -305,8 +313,10 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, 1.0, 1.0, 1.0, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            bounds = [(rho_s_lbound, rho_s_rbound), (alpha_lbound, alpha_rbound), (beta_lbound, beta_rbound), (gamma_lbound, gamma_rbound), (r_s_lbound, r_s_rbound)]
+            lbounds, rbounds = np.transpose(bounds)
+            res = optimize.minimize(toMinimize, np.clip(iguess, lbounds, rbounds), method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = bounds) # Only hand over rescaled median!
+            best_fit = np.clip(res.x, lbounds, rbounds)
         else:
             if 'r_s' in method:
                 r_s_lbound = method['r_s']
@@ -315,8 +325,10 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
                 r_s_lbound = 1e-5
                 r_s_rbound = np.inf
             iguess = np.array([0.1, r200/5])
-            res = optimize.minimize(toMinimize, iguess, method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = [(1e-7, np.inf), (r_s_lbound, r_s_rbound)]) # Only hand over rescaled median!
-            best_fit = res.x
+            bounds = [(rho_s_lbound, rho_s_rbound), (r_s_lbound, r_s_rbound)]
+            lbounds, rbounds = np.transpose(bounds)
+            res = optimize.minimize(toMinimize, np.clip(iguess, lbounds, rbounds), method = min_method, args = (median/np.average(median), R_to_min, method['profile']), bounds = bounds) # Only hand over rescaled median!
+            best_fit = np.clip(res.x, lbounds, rbounds)
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
         best_fit = iguess*np.nan
-- 
2.43.0


From 7a7e116ffb7a3ec9daac5cd2e4274cf169517604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 16/44] fix: fixed r_s and rho_s of density profile fits were
 not converted from the Out unit system

---
 cosmic_profiles/common/cosmic_base_class.pyx   |  5 ++++-
 cosmic_profiles/dens_profs/dens_profs_tools.py | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index c2e36b7..b04423a 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -7,7 +7,7 @@ cimport cython
 from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
-from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs
+from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs, getMethodInternal
 from cosmic_profiles.shape_profs.shape_profs_algos import calcMorphLocal, calcMorphGlobal, calcMorphLocalVelDisp, calcMorphGlobalVelDisp
 from cosmic_profiles.dens_profs.dens_profs_algos import calcMassesCenters, calcDensProfsSphDirectBinning, calcDensProfsEllDirectBinning, calcDensProfsKernelBased
 import time
@@ -1026,6 +1026,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = getMethodInternal(method, l_curr_over_target, m_curr_over_target*l_curr_over_target**(-3))
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1072,6 +1073,7 @@ cdef class CosmicBase:
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
+        method = getMethodInternal(method, l_curr_over_target, m_curr_over_target*l_curr_over_target**(-3))
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -1117,6 +1119,7 @@ cdef class CosmicBase:
         m_curr_over_target = config.OutUnitMass_in_g/m_target
         dens_profs_ = dens_profs.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs is in M_sun*h^2/(Mpc)**3
         dens_profs_fit_ = dens_profs_fit.base*m_curr_over_target*l_curr_over_target**(-3) # So that dens_profs_fit is in M_sun*h^2/(Mpc)**3
+        method = getMethodInternal(method, l_curr_over_target, m_curr_over_target*l_curr_over_target**(-3))
         obj_centers, obj_masses = self._getMassesCenters(obj_numbers) # In units of Mpc/h (internal length units) and 10^10*M_sun*h^2/(Mpc)**3
         
         if rank == 0:
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 39634f2..e127dcd 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -229,6 +229,24 @@ def toMinimize(model_pars_arr, median, rbin_centers, profile):
     psi_2 = np.sum(np.array([(np.log(median[i])-np.log(prof_models[profile](rbin, getModelParsDict(model_pars_arr, profile))))**2/rbin_centers.shape[0] for i, rbin in enumerate(rbin_centers)]))
     return psi_2
 
+def getMethodInternal(method, l_curr_over_target, dens_curr_over_target):
+    """ Convert the fixed dimensionful parameters in ``method`` to the units used for fitting
+    
+    :param method: describes density profile model assumed for fitting, if parameter should be kept fixed during fitting then it needs to be provided, e.g. method['alpha'] = 0.18
+    :type method: dictionary, method['profile'] is either `einasto`, `alpha_beta_gamma`, `hernquist`, `nfw`, minimum requirement
+    :param l_curr_over_target: conversion factor for ``r_s``
+    :type l_curr_over_target: float
+    :param dens_curr_over_target: conversion factor for ``rho_s``
+    :type dens_curr_over_target: float
+    :return: ``method`` with converted ``r_s`` and ``rho_s``, if provided
+    :rtype: dictionary"""
+    method = dict(method)
+    if 'r_s' in method:
+        method['r_s'] = method['r_s']*l_curr_over_target
+    if 'rho_s' in method:
+        method['rho_s'] = method['rho_s']*dens_curr_over_target
+    return method
+
 def fitDensProf(ROverR200, method, median_r200_obj_nb):
     """
     Fit density profile according to model provided
-- 
2.43.0


From 1b4a97fb3ae490e5d5df71ebc2810dce412619f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 17/44] fix: non-integer entries of an object selection list
 were truncated instead of refused

---
 cosmic_profiles/common/cosmic_base_class.pyx  | 12 +++----
 cosmic_profiles/common/python_routines.py     | 13 ++++++++
 .../dens_profs/dens_profs_classes.pyx         |  6 ++--
 .../shape_profs/shape_profs_classes.pyx       | 32 +++++++++----------
 4 files changed, 38 insertions(+), 25 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index b04423a..f138f1f 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -4,7 +4,7 @@
 
 import numpy as np
 cimport cython
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, selectionToInt, getSubSetIdxCat
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getLocalTHist, getGlobalTHist, getShapeProfs
 from cosmic_profiles.dens_profs.dens_profs_tools import fitDensProfHelper, drawDensProfs, getMethodInternal
@@ -932,7 +932,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -976,7 +976,7 @@ cdef class CosmicBase:
         :rtype: (N2, r_res) floats"""
         print_status(rank,self.start_time,'Starting {} estDensProfs() with snap {}'.format('direct binning' if direct_binning == True else 'kernel based', self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -1020,7 +1020,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `fitDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1067,7 +1067,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `estConcentrations()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
@@ -1112,7 +1112,7 @@ cdef class CosmicBase:
         if len(dens_profs) != len(obj_numbers):
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `plotDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         l_internal, m_internal, vel_internal = config.getLMVInternal()
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index ef9205e..eb30336 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -610,6 +610,19 @@ def getCatWithinFracR200(cat_in, obj_size_in, xyz, masses, L_BOX, CENTER, r200,
             remnant.append(idx)            
     return cat_out, obj_size_out[remnant]
 
+def selectionToInt(obj_numbers):
+    """ Convert list of object indices to integer array
+    
+    :param obj_numbers: list of object indices of interest
+    :type obj_numbers: list of int
+    :return: integer array of object indices
+    :rtype: (N,) ints
+    :raises: ``ValueError`` if there are non-integers, rather than truncating them"""
+    obj_numbers = np.array(obj_numbers)
+    if np.any(obj_numbers != obj_numbers.round()):
+        raise ValueError("Please supply integers only for your object selection!")
+    return np.int32(obj_numbers)
+
 def isValidSelection(obj_numbers, nb_objects):
     """ Trivial function to check whether selection of objects is valid
     
diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 8f78968..74e6910 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -5,7 +5,7 @@
 import numpy as np
 from cosmic_profiles.common.cosmic_base_class cimport CosmicBase
 from cosmic_profiles.common import config
-from cosmic_profiles.common.python_routines import print_status, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
+from cosmic_profiles.common.python_routines import print_status, isValidSelection, selectionToInt, getSubSetIdxCat, checkKatzConfig, default_katz_config, checkDensFitMethod
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
 from cosmic_profiles.gadget.gen_catalogues import calcObjCat
 from cosmic_profiles.gadget import readgadget
@@ -103,7 +103,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in config.OutUnitLength_in_cm and masses in config.OutUnitMass_in_g
         :rtype: structured array, containing (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
@@ -128,7 +128,7 @@ cdef class DensProfsBase(CosmicBase):
         :return centers, m: centers in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N,3) and (N,) floats"""
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         if rank == 0:
             idx_cat_len = len(self.obj_size.base)
             isValidSelection(obj_numbers, idx_cat_len)
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index aafd913..b1d0683 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -16,7 +16,7 @@ import subprocess
 import os
 currentdir = os.path.dirname(os.path.abspath(inspect.getfile(inspect.currentframe())))
 from cosmic_profiles.dens_profs.dens_profs_classes cimport DensProfsBase
-from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, isValidSelection, getSubSetIdxCat, checkKatzConfig, default_katz_config
+from cosmic_profiles.common.python_routines import print_status, set_axes_equal, fibonacci_ellipsoid, respectPBCNoRef, isValidSelection, selectionToInt, getSubSetIdxCat, checkKatzConfig, default_katz_config
 from cosmic_profiles.common import config
 from cosmic_profiles.shape_profs.shape_profs_tools import getGlobalEpsHist, getLocalEpsHist
 from cosmic_profiles.gadget.read_fof import getFoFSHData, getPartType
@@ -86,7 +86,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         print_status(rank,self.start_time,'Starting getShapeCatLocal() with snap {0}'.format(self.SNAP))
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -121,7 +121,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             3 x (number_of_objs, 3) double arrays"""
         print_status(rank,self.start_time,'Starting getShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -153,7 +153,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizLocalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         D_BINS = ROverR200.shape[0]-1
         if rank == 0:
@@ -249,7 +249,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting vizGlobalShapes() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -325,7 +325,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotGlobalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -343,7 +343,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type obj_numbers: list of int"""
         print_status(rank,self.start_time,'Starting plotLocalEpsHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
             isValidSelection(obj_numbers, nb_objects)
@@ -363,7 +363,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotLocalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -384,7 +384,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotGlobalTHist() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -403,7 +403,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting plotShapeProfs() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -420,7 +420,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -437,7 +437,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(self.obj_size.base)
@@ -607,7 +607,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -649,7 +649,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         velxyz = self._getVelXYZ()
         idx_cat, obj_size = self.getIdxCat()
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         if rank == 0:
             nb_objects = len(obj_size)
@@ -684,7 +684,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatLocal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
@@ -710,7 +710,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :type katz_config: dictionary"""
         print_status(rank,self.start_time,'Starting dumpShapeVelCatGlobal() with snap {0}'.format(self.SNAP))
         if type(obj_numbers) == list:
-            obj_numbers = np.int32(obj_numbers)
+            obj_numbers = selectionToInt(obj_numbers)
         ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED = checkKatzConfig(katz_config)
         xyz, masses = self._getXYZMasses()
         idx_cat, obj_size = self.getIdxCat()
-- 
2.43.0


From 858e3ba1530548aa6746298e7230fc168f8f2a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 18/44] fix: getIdxCat handed out the arrays the object itself
 (and the cache) works with

---
 cosmic_profiles/dens_profs/dens_profs_classes.pyx   | 2 +-
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 74e6910..a11994d 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -75,7 +75,7 @@ cdef class DensProfsBase(CosmicBase):
             obj_size: number of particles in each object
         :rtype: (N3) integers and (N1,) integers"""
         if rank == 0:
-            return self.idx_cat.base, self.obj_size.base
+            return self.idx_cat.base.copy(), self.obj_size.base.copy()
         else:
             return None, None
         
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index b1d0683..e7afe53 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -823,7 +823,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, self.MIN_NUMBER_PTCS)
             self.r200 = obj_r200
             del nb_shs; del sh_len; del fof_sizes; del group_r200
-            return obj_cat, obj_size
+            return obj_cat.copy(), obj_size.copy()
         else:
             del nb_shs; del sh_len; del fof_sizes; del group_r200
             return None, None
-- 
2.43.0


From 62a0041ec1d91fd3bc1419386937d32be60d6854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 19/44] fix: objects with an unconverged radius were dropped
 from the local triaxiality histogram

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 9f977ed..ea38b37 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -270,7 +270,7 @@ def getLocalTHist(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj
     if rank == 0:
         idx = np.zeros((d.shape[0],), dtype = np.int32)
         for obj in range(idx.shape[0]):
-            idx[obj] = np.argmin(abs(d[obj] - r200[obj]*frac_r200))        
+            idx[obj] = np.argmin(np.nan_to_num(abs(d[obj] - r200[obj]*frac_r200), nan = np.inf)) # Radii without converged shape are nan
         
         t = np.zeros((d.shape[0],))
         for obj in range(d.shape[0]):
-- 
2.43.0


From cae3e938e6f6fb005af18a10ff3527d601e3e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 20/44] fix: getShapeMs ignored its ERROR_METHOD argument

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index ea38b37..6819f76 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -99,7 +99,7 @@ def getShapeMs(d, idx_groups, group, param_interest, ERROR_METHOD, r_over_r200,
                 continue
             else:
                 y[closest_idx].append(param_interest[obj][rad])
-    mean, err_low, err_high = getMeanOrMedianAndError(y, "median_quantile")
+    mean, err_low, err_high = getMeanOrMedianAndError(y, ERROR_METHOD)
     return mean, err_low, err_high
 
 def getShapeProfs(VIZ_DEST, SNAP, r_over_r200, r200, start_time, obj_masses, obj_centers, d, q, s, major_full, nb_bins, MASS_UNIT=1e10, suffix = '_'):
-- 
2.43.0


From cbba66fc17bddf6dc96ab9060154cb71cc255c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 21/44] fix: fibonacci_sphere and fibonacci_ellipsoid raised
 ZeroDivisionError for the default of one sample

---
 cosmic_profiles/common/python_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index eb30336..6ad12f9 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -272,7 +272,7 @@ def fibonacci_sphere(samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
@@ -326,7 +326,7 @@ def fibonacci_ellipsoid(a, b, c, samples=1):
     phi = math.pi * (3. - math.sqrt(5.))  # golden angle in radians
 
     for i in range(samples):
-        y = 1 - (i / float(samples - 1)) * 2  # y goes from 1 to -1
+        y = 1 - (i / float(max(samples - 1, 1))) * 2  # y goes from 1 to -1
         radius = math.sqrt(1 - y * y)  # radius at y
 
         theta = phi * i  # golden angle increment
-- 
2.43.0


From d3d46a6ccd6516bfb11066b65866bdb1c4600ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 22/44] fix: objects at the mass bin edges were left out of the
 density profile plots

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index e127dcd..74e66b8 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -131,9 +131,9 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         
         # Mass splitting
         max_min_m, obj_m_groups, obj_center_groups, idx_groups = M_split(MASS_UNIT*obj_masses, obj_centers, start_time, NB_BINS = nb_bins)
-        del obj_centers; del obj_center_groups; del idx_groups
+        del obj_centers; del obj_center_groups
         print_status(rank, start_time, "The number of objects considered is {0}".format(r200s.shape[0]))
-        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(np.sum(np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[0] and obj_masses[i]*MASS_UNIT < max_min_m[1]) else 0 for i in range(r200s.shape[0])]))))
+        print_status(rank, start_time, "The mass bins (except maybe last) have size {0}".format(len(idx_groups[0])))
         print_status(rank, start_time, "The number of mass bins is {0}".format(len(obj_m_groups)))
         prof_models = {'einasto': getEinastoProf, 'alpha_beta_gamma': getAlphaBetaGammaProf, 'nfw': getNFWProf, 'hernquist': getHernquistProf}
         model_name = {'einasto': 'Einasto', 'alpha_beta_gamma': r'\alpha \beta \gamma', 'nfw': 'NFW', 'hernquist': 'Hernquist'}
@@ -186,7 +186,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         plt.savefig("{}/RhoProf_{}.pdf".format(VIZ_DEST, SNAP), bbox_inches="tight")
         
         for group in range(len(obj_m_groups)):
-            obj_pass_m = np.int32([1 if (obj_masses[i]*MASS_UNIT > max_min_m[group] and obj_masses[i]*MASS_UNIT < max_min_m[group+1]) else 0 for i in range(r200s.shape[0])])
+            obj_pass_m = np.int32([1 if i in idx_groups[group] else 0 for i in range(r200s.shape[0])])
             # Find profile median
             y = [list(dens_profs[np.nonzero(obj_pass_m > 0)[0],i]) for i in range(ROverR200.shape[0])]
             prof_median = np.array([np.median(z) if z != [] else np.nan for z in y])
-- 
2.43.0


From 691769ea790a9f7be9e7d32cd77549bc083fe487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 23/44] fix: ellipticity histograms raised ZeroDivisionError
 for objects of a single particle

---
 cosmic_profiles/shape_profs/shape_profs_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_tools.py b/cosmic_profiles/shape_profs/shape_profs_tools.py
index 6819f76..f4e9d05 100644
--- a/cosmic_profiles/shape_profs/shape_profs_tools.py
+++ b/cosmic_profiles/shape_profs/shape_profs_tools.py
@@ -55,7 +55,10 @@ def getEpsilon(idx_cat, obj_size, xyz, masses, L_BOX, CENTER, angle=0.0):
             qxx = shape_tensor[0,0]
             qyy = shape_tensor[1,1]
             qxy = shape_tensor[0,1]
-            eps.append((qxx-qyy)/(qxx+qyy) + complex(0,1)*2*qxy/(qxx+qyy))
+            if len(xyz_) == 1 or qxx+qyy == 0.0: # Ellipticity is not defined
+                eps.append(complex(np.nan, np.nan))
+            else:
+                eps.append((qxx-qyy)/(qxx+qyy) + complex(0,1)*2*qxy/(qxx+qyy))
         eps = np.array(eps)
         return eps
     else:
-- 
2.43.0


From 14122389307393561b9d1cfb9167fd18009fdc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 24/44] fix: objects straddling a periodic box face were
 visualized a box length away from their center and ellipsoid

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index e7afe53..33ecdb5 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -187,6 +187,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # Center is inside the box, the unwrapped object might not be
+                    L_BOX_out = config.LengthInternalToOut(self.L_BOX)
+                    obj = obj-L_BOX_out*np.round((np.average(obj, axis = 0)-center)/L_BOX_out)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
@@ -282,6 +285,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
                 obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                if self.L_BOX != 0.0: # Center is inside the box, the unwrapped object might not be
+                    L_BOX_out = config.LengthInternalToOut(self.L_BOX)
+                    obj = obj-L_BOX_out*np.round((np.average(obj, axis = 0)-center)/L_BOX_out)
                 # Plotting
                 fig = pyplot.figure()
                 ax = Axes3D(fig, auto_add_to_figure = False)
-- 
2.43.0


From 26282a78d8dbc10599b9810dae664f8d4c7c819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 25/44] fix: multi-file binary snapshots with a file lacking a
 particle type could not be read

---
 cosmic_profiles/gadget/readsnap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index d362f8b..99a6ec6 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -349,6 +349,10 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       actual_curpartnum = curpartnum
       add_offset = np.int32(0)
       
+    if parttype>=0 and actual_curpartnum==0: # Gadget omits blocks in files that do not contain any such particles
+      if single_file:  break
+      continue
+
     offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
     if i==0: # Fix data type for ID if long IDs are used
-- 
2.43.0


From 3ce9c59a4421a0da06583952e6420ce7520e0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 26/44] fix: particle identifiers beyond 32 (binary) or 53 bits
 came back truncated

---
 cosmic_profiles/gadget/readgadget.py | 12 +++++++-----
 cosmic_profiles/gadget/readsnap.py   |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 04efd4c..008e1ad 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -100,8 +100,8 @@ def read_field(snapshot, block, ptype):
         raise Exception('block not implemented in readgadget!')
 
     if fformat=="binary":
-        array = readsnap.read_block(filename, block, parttype=ptype)/unit_fac
-        return array
+        array = readsnap.read_block(filename, block, parttype=ptype)
+        return array if block=="ID  " else array/unit_fac
     else:
         prefix = 'PartType%d/'%ptype
         f = h5py.File(filename, 'r')
@@ -112,7 +112,8 @@ def read_field(snapshot, block, ptype):
             else:
                 raise Exception('Problem reading the block %s'%block)
         else:
-            array = f[prefix+suffix][:]/unit_fac
+            array = f[prefix+suffix][:]
+            if block!="ID  ":  array = array/unit_fac
         f.close()
 
         if block=="VEL ":  array *= np.sqrt(head.time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
@@ -150,7 +151,7 @@ def read_block(snapshot, block, ptype, verbose=False):
         dtype=np.float64
     elif block=="ID  ":  
         unit_fac = 1
-        dtype=read_field(filename, block, ptype[0]).dtype
+        dtype=np.uint64
     elif block=="VEL ":  
         unit_fac = v_target_over_curr
         dtype=np.dtype((np.float64,3))
@@ -166,7 +167,8 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Format I or format II Gadget files
         if fformat=="binary":
-            array[offset:offset+Nall[pt]] = readsnap.read_block(snapshot, block, pt, verbose=verbose)/unit_fac
+            data = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            array[offset:offset+Nall[pt]] = data if block=="ID  " else data/unit_fac
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 99a6ec6..b5d3f49 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -355,10 +355,10 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
 
     offset,blocksize = find_block(curfilename,format,swap,block,block_num)
     
-    if i==0: # Fix data type for ID if long IDs are used
-      if block=="ID  ":
+    if block=="ID  " and dt==np.uint32: # Fix data type for ID if long IDs are used
         if blocksize == np.dtype(dt).itemsize*curpartnum * 2:
           dt = np.uint64 
+          data = data.astype(dt)
         
     if block!="ID  " and curpartnum>0 and np.dtype(dt).itemsize*curpartnum == blocksize * 2: # Block is in single precision
       dt = np.dtype((np.float32,np.dtype(dt).shape))
-- 
2.43.0


From a4b61ee45feb6c3cf5db1f5d90c61666e2005939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 27/44] fix: objects with all particles in one plane raised
 ZeroDivisionError in shape calculations

---
 cosmic_profiles/shape_profs/shape_profs_algos.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cosmic_profiles/shape_profs/shape_profs_algos.pyx b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
index c3b3e36..09b582e 100644
--- a/cosmic_profiles/shape_profs/shape_profs_algos.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_algos.pyx
@@ -98,6 +98,9 @@ cdef double[:] runShellAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] x
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Degenerate shape tensor, e.g. all particles lie in one plane
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -223,6 +226,9 @@ cdef double[:] runEllAlgo(double[:] morph_info, double[:,:] xyz, double[:,:] xyz
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Degenerate shape tensor, e.g. all particles lie in one plane
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -344,6 +350,9 @@ cdef double[:] runEllVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:,:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Degenerate shape tensor, e.g. all particles lie in one plane
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
@@ -467,6 +476,9 @@ cdef double[:] runShellVDispAlgo(double[:] morph_info, double[:,:] xyz, double[:
         eigvec[:,:] = 0.0
         eigval[:] = 0.0
         CythonHelpers.ZHEEVR(shape_tensor[:,:], &eigval[0], eigvec, 3)
+        if not eigval[0] > 0.0: # Degenerate shape tensor, e.g. all particles lie in one plane
+            morph_info[:] = 0.0
+            return morph_info
         q_old = q_new; s_old = s_new
         q_new = sqrt(eigval[1]/eigval[2])
         s_new = sqrt(eigval[0]/eigval[2]) # It is assumed that eigenvalues are approximately proportional to a^2 etc. (true for uniform ellipsoid or uniform shell), though I have never seen any proof..
-- 
2.43.0


From ee10e4161b28267de61e89520239abf539413eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:08 +0000
Subject: [PATCH 28/44] fix: a particle at the center of an object raised
 ZeroDivisionError in the reduced shape tensor

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 3a4301c..0cffa6b 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -50,7 +50,7 @@ cdef class CythonHelpers:
                     for run in range(nb_pts):
                         if reduced == False:
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/mass_tot)
-                        else:
+                        elif r_ell[select[run]] > 0.0: # No weight can be assigned to a particle at the center
                             shape_tensor[i,j] = shape_tensor[i,j] + <complex>(masses[select[run]]*(nns[select[run],i]-center[i])*(nns[select[run],j]-center[j])/(mass_tot*r_ell[select[run]]**2))
                     if i > j:
                         shape_tensor[j,i] = shape_tensor[i,j]
-- 
2.43.0


From 8fa9a2c1d12e8ab8f3f3dde022a31393bed1d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 29/44] fix: densest point of five or more coinciding particles
 raised RecursionError

---
 cosmic_profiles/common/python_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index 6ad12f9..f76c4c1 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -299,7 +299,7 @@ def calcMode(xyz, masses, rad):
     distances_all = np.linalg.norm(xyz-com,axis=1)
     xyz_constrain = xyz[distances_all < rad]
     masses_constrain = masses[distances_all < rad]
-    if xyz_constrain.shape[0] < 5: # If only < 5 particles left, return
+    if xyz_constrain.shape[0] < 5 or not np.any(distances_all > 0.0): # If only < 5 particles left or all coincide, return
         return com
     else:
         rad *= 0.83 # Reduce radius by 17 %
-- 
2.43.0


From e7a351ecef9fcc3941bfd484707c498e68dbb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:50 +0000
Subject: [PATCH 30/44] fix: the Gadget front end on MPI ranks other than 0
 held None where arrays are needed

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 33ecdb5..c15556d 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -587,11 +587,11 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             del nb_shs; del sh_len; del fof_sizes; del group_r200
         else:
             del nb_shs; del sh_len; del fof_sizes; del group_r200; del xyz; del masses  
-            obj_cat = None
-            obj_r200 = None
-            obj_size = None
-            xyz = None
-            masses = None
+            obj_cat = np.empty(0, dtype = np.int32)
+            obj_r200 = np.empty(0, dtype = np.float64)
+            obj_size = np.empty(0, dtype = np.int32)
+            xyz = np.empty((0,3), dtype = np.float64)
+            masses = np.empty(0, dtype = np.float64)
         # Find L_BOX
         head = readgadget.header(self.SNAP_DEST)
         L_BOX = np.float64(head.boxsize)
-- 
2.43.0


From ac42f9403b296ea7a2b9e423c082656e4d6523a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 31/44] fix: fitDensProfs() on MPI ranks other than 0 failed
 for want of best fits

---
 cosmic_profiles/dens_profs/dens_profs_classes.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index a11994d..6922e25 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -174,6 +174,8 @@ cdef class DensProfsBase(CosmicBase):
         :rtype: structured array, containing (N3, n) floats, where n is the number of free parameters in the model ``method``"""
         checkDensFitMethod(method)
         best_fits = self._fitDensProfsBase(self.r200.base, self.obj_size.base, np.float64(dens_profs), np.float64(r_over_r200), method, obj_numbers)
+        if rank != 0:
+            return None
         model_pars = {'einasto': [('alpha', "f8"), ('r_s', "f8")], 'nfw': [('r_s', "f8")], 'hernquist': [('r_s', "f8")], 'alpha_beta_gamma': [('alpha', "f8"), ('beta', "f8"), ('gamma', "f8"), ('r_s', "f8")]}
         FITS_PROF_DTYPE = [("rho_s", "f8")] + [tuple_ for tuple_ in model_pars[method['profile']]]
         FITS_PROF_DTYPE+=[("is_conv", "bool")]
-- 
2.43.0


From e321010002ce84122c304543a524579d64492cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:58 +0000
Subject: [PATCH 32/44] fix: getObjInfoGadget() compared particle indices with
 an empty list (ValueError) where it counts objects

---
 cosmic_profiles/shape_profs/shape_profs_classes.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index c15556d..5af9c22 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -847,7 +847,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank, self.start_time, "The total number of objects is {0}".format(len(nb_shs)))
         print_status(rank, self.start_time, "The total number of SHs (subhalos) is {0}".format(len(sh_len)))
         print_status(rank, self.start_time, "The number of objects that have no SH is {0}".format(nb_shs[nb_shs == 0].shape[0]))
-        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(len([x for x in self.idx_cat.base if x != []])))
+        print_status(rank, self.start_time, "The total number of objects (central subhalos) that have sufficient resolution is {0}".format(self.obj_size.base.shape[0]))
         del nb_shs; del sh_len; del fof_sizes; del group_r200
         
     def getHeader(self): # Header
-- 
2.43.0


From 86d822953b392581659480052384d0a104ae45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 33/44] fix: float selections were converted through int32, so
 that numbers from 2**31 on wrapped around into the catalogue

---
 cosmic_profiles/common/python_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/common/python_routines.py b/cosmic_profiles/common/python_routines.py
index f76c4c1..67114d4 100644
--- a/cosmic_profiles/common/python_routines.py
+++ b/cosmic_profiles/common/python_routines.py
@@ -621,7 +621,7 @@ def selectionToInt(obj_numbers):
     obj_numbers = np.array(obj_numbers)
     if np.any(obj_numbers != obj_numbers.round()):
         raise ValueError("Please supply integers only for your object selection!")
-    return np.int32(obj_numbers)
+    return np.int64(obj_numbers) # Not np.int32, for which e.g. 2**32 would wrap around to 0
 
 def isValidSelection(obj_numbers, nb_objects):
     """ Trivial function to check whether selection of objects is valid
-- 
2.43.0


From 448c2f73bd7d60ecc0132a12271cd29cc4c318fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 34/44] fix: a refused unit name passed to update*Units()
 changed the value of little h all the same

---
 cosmic_profiles/common/config.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cosmic_profiles/common/config.py b/cosmic_profiles/common/config.py
index 0da9c14..2d8ed5c 100644
--- a/cosmic_profiles/common/config.py
+++ b/cosmic_profiles/common/config.py
@@ -7,10 +7,12 @@ comm = MPI.COMM_WORLD
 rank = comm.Get_rank()
 size = comm.Get_size()
 
-def getAdmissibleLMV():
+def getAdmissibleLMV(little_h = None):
     global LittleH
-    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/LittleH, 'Mpc/h': 3.085678e24/LittleH, 'Gpc/h': 3.085678e27/LittleH, 'pc': 3.085678e18, 'pc/h': 3.085678e18/LittleH}
-    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/LittleH, 'E+10Msun/h': 1.989e43/LittleH}
+    if little_h is None:
+        little_h = LittleH
+    length_in_cm_d = {'kpc': 3.085678e21, 'Mpc': 3.085678e24, 'Gpc': 3.085678e27, 'kpc/h': 3.085678e21/little_h, 'Mpc/h': 3.085678e24/little_h, 'Gpc/h': 3.085678e27/little_h, 'pc': 3.085678e18, 'pc/h': 3.085678e18/little_h}
+    mass_in_g_d = {'Msun': 1.989e33, 'E+10Msun': 1.989e43, 'Msun/h': 1.989e33/little_h, 'E+10Msun/h': 1.989e43/little_h}
     velocity_in_cm_per_s_d = {'km/s': 1e5}
     return length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d
 
@@ -101,9 +103,8 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     global InUnitMass_in_g
     global InUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -113,6 +114,7 @@ def updateInUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h):
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h # Only now, since unit names that are not admissible must leave everything as it is
     InUnitLength_in_cm = length_in_cm
     InUnitMass_in_g = mass_in_g
     InUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
@@ -133,9 +135,8 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     global OutUnitMass_in_g
     global OutUnitVelocity_in_cm_per_s
     global LittleH
-    LittleH = little_h
     
-    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV()
+    length_in_cm_d, mass_in_g_d, velocity_in_cm_per_s_d = getAdmissibleLMV(little_h)
     if type(length_in_cm) == str:
         assert length_in_cm in length_in_cm_d.keys(), "Unit not allowed for length_in_cm. Choose from {} or provide length in cm".format(list(length_in_cm_d.keys()))
         length_in_cm = length_in_cm_d[length_in_cm]
@@ -145,6 +146,7 @@ def updateOutUnitSystem(length_in_cm, mass_in_g, velocity_in_cm_per_s, little_h)
     if type(velocity_in_cm_per_s) == str:
         assert velocity_in_cm_per_s in velocity_in_cm_per_s_d.keys(), "Unit not allowed for velocity_in_cm_per_s. Choose from {} or provide vel in cm/s".format(list(velocity_in_cm_per_s_d.keys()))
         velocity_in_cm_per_s = velocity_in_cm_per_s_d[velocity_in_cm_per_s]
+    LittleH = little_h # Only now, since unit names that are not admissible must leave everything as it is
     OutUnitLength_in_cm = length_in_cm
     OutUnitMass_in_g = mass_in_g
     OutUnitVelocity_in_cm_per_s = velocity_in_cm_per_s
-- 
2.43.0


From 7e93076a0eb3dc45fc6e146afc6d3b658be4012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 35/44] fix: objects converted their data with the units and
 little h set last instead of those they were created with

---
 cosmic_profiles/common/cosmic_base_class.pxd  |  4 +-
 cosmic_profiles/common/cosmic_base_class.pyx  | 33 ++++++------
 .../dens_profs/dens_profs_classes.pyx         |  6 +--
 .../dens_profs/dens_profs_tools.py            |  4 +-
 cosmic_profiles/gadget/read_fof.py            | 15 +++---
 cosmic_profiles/gadget/readgadget.py          | 27 +++++-----
 .../shape_profs/shape_profs_classes.pyx       | 50 ++++++++++---------
 7 files changed, 75 insertions(+), 64 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pxd b/cosmic_profiles/common/cosmic_base_class.pxd
index 554e487..d24e8ab 100644
--- a/cosmic_profiles/common/cosmic_base_class.pxd
+++ b/cosmic_profiles/common/cosmic_base_class.pxd
@@ -17,4 +17,6 @@ cdef class CosmicBase:
     cdef double SAFE # Units: Mpc/h. Ellipsoidal radius will be maxdist(COM,point)+SAFE where point is any point in the point cloud. The larger the better.
     cdef double MASS_UNIT
     cdef int MIN_NUMBER_PTCS
-    cdef str SUFFIX
\ No newline at end of file
+    cdef str SUFFIX
+    cdef tuple LMV_IN # In unit system at the time of construction
+    cdef tuple LMV_INTERNAL # Internal unit system at the time of construction
\ No newline at end of file
diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index f138f1f..4d190f5 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -51,8 +51,9 @@ cdef class CosmicBase:
         :param SUFFIX: either '_dm_' or '_gx_' or '' (latter for CosmicProfsDirect)
         :type SUFFIX: string"""
         self.SNAP = SNAP
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = config.InUnitLength_in_cm/l_internal
+        # All data of the object are held in these units, whatever units (or little h) will be set later on
+        self.LMV_IN = (config.InUnitLength_in_cm, config.InUnitMass_in_g, config.InUnitVelocity_in_cm_per_s)
+        self.LMV_INTERNAL = config.getLMVInternal()
         self.L_BOX = L_BOX # self.L_BOX must be in units of 3.085678e24 cm (Mpc/h (internal length units))
         self.CENTER = CENTER
         self.VIZ_DEST = VIZ_DEST
@@ -127,7 +128,7 @@ cdef class CosmicBase:
                 obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 
-                l_internal, m_internal, vel_internal = config.getLMVInternal()
+                l_internal, m_internal, vel_internal = self.LMV_INTERNAL
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
                 m_curr_over_target = m_internal/config.OutUnitMass_in_g
                 d = d/l_curr_over_target
@@ -200,7 +201,7 @@ cdef class CosmicBase:
                 obj_masses = np.loadtxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 
-                l_internal, m_internal, vel_internal = config.getLMVInternal()
+                l_internal, m_internal, vel_internal = self.LMV_INTERNAL
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
                 m_curr_over_target = m_internal/config.OutUnitMass_in_g
                 d = d/l_curr_over_target
@@ -296,7 +297,7 @@ cdef class CosmicBase:
                 obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 
-                l_internal, m_internal, vel_internal = config.getLMVInternal()
+                l_internal, m_internal, vel_internal = self.LMV_INTERNAL
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
                 m_curr_over_target = m_internal/config.OutUnitMass_in_g
                 d = d/l_curr_over_target
@@ -372,7 +373,7 @@ cdef class CosmicBase:
                 obj_masses = np.loadtxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 obj_centers = np.loadtxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
                 
-                l_internal, m_internal, vel_internal = config.getLMVInternal()
+                l_internal, m_internal, vel_internal = self.LMV_INTERNAL
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
                 m_curr_over_target = m_internal/config.OutUnitMass_in_g
                 d = d/l_curr_over_target
@@ -452,7 +453,7 @@ cdef class CosmicBase:
         if rank == 0:
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatLocalBase(xyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, suffix)
             del idx_cat
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             d = d*l_curr_over_target
@@ -506,7 +507,7 @@ cdef class CosmicBase:
         :type reduced: boolean"""
         if rank == 0:
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatGlobalBase(xyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, suffix)
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             d = d*l_curr_over_target
@@ -567,7 +568,7 @@ cdef class CosmicBase:
         """
         if rank == 0:
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelLocalBase(xyz.base, velxyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, r_over_r200.base, IT_TOL, IT_WALL, IT_MIN, reduced, shell_based, suffix)
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             d = d*l_curr_over_target
@@ -625,7 +626,7 @@ cdef class CosmicBase:
         
         if rank == 0:
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz.base, velxyz.base, masses.base, r200.base, idx_cat.base, obj_size.base, IT_TOL, IT_WALL, IT_MIN, reduced, suffix)
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             d = d*l_curr_over_target
@@ -946,7 +947,7 @@ cdef class CosmicBase:
                     dens_profs = self._getDensProfsSphDirectBinningBase(xyz.base, masses.base, r200.base[obj_numbers], subset_idx_cat, obj_size.base[obj_numbers], r_over_r200.base)
             else:
                 dens_profs = self._getDensProfsKernelBasedBase(xyz.base, masses.base, r200.base[obj_numbers], subset_idx_cat, obj_size.base[obj_numbers], r_over_r200.base)
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             m_curr = m_internal/self.MASS_UNIT
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_curr/config.OutUnitMass_in_g
@@ -990,7 +991,7 @@ cdef class CosmicBase:
                     dens_profs = self._getDensProfsSphDirectBinningBase(self.xyz.base, self.masses.base, self.r200.base[obj_numbers], subset_idx_cat, self.obj_size.base[obj_numbers], np.float64(r_over_r200))
             else:
                 dens_profs = self._getDensProfsKernelBasedBase(self.xyz.base, self.masses.base, self.r200.base[obj_numbers], subset_idx_cat, self.obj_size.base[obj_numbers], np.float64(r_over_r200))
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             m_curr = m_internal/self.MASS_UNIT
             m_curr_over_target = m_curr/config.OutUnitMass_in_g
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -1021,7 +1022,7 @@ cdef class CosmicBase:
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `fitDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
             obj_numbers = selectionToInt(obj_numbers)
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_internal, m_internal, vel_internal = self.LMV_INTERNAL
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
@@ -1068,7 +1069,7 @@ cdef class CosmicBase:
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `estConcentrations()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
             obj_numbers = selectionToInt(obj_numbers)
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_internal, m_internal, vel_internal = self.LMV_INTERNAL
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
@@ -1113,7 +1114,7 @@ cdef class CosmicBase:
             raise ValueError("The `obj_numbers` argument is inconsistent with the `dens_profs` handed over to the `plotDensProfs()` function. Please double-check and use the same `obj_numbers` as used for the density profile estimation!")
         if type(obj_numbers) == list:
             obj_numbers = selectionToInt(obj_numbers)
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_internal, m_internal, vel_internal = self.LMV_INTERNAL
         m_target = m_internal/self.MASS_UNIT
         l_curr_over_target = config.OutUnitLength_in_cm/l_internal
         m_curr_over_target = config.OutUnitMass_in_g/m_target
@@ -1125,7 +1126,7 @@ cdef class CosmicBase:
         if rank == 0:
             idx_cat_len = len(obj_size)
             isValidSelection(obj_numbers, idx_cat_len)
-            drawDensProfs(self.VIZ_DEST, self.SNAP, r200.base[obj_numbers], dens_profs_fit_, r_over_r200_fit.base, dens_profs_, r_over_r200.base, obj_masses, obj_centers, method, nb_bins, self.start_time, self.MASS_UNIT, suffix = suffix)
+            drawDensProfs(self.VIZ_DEST, self.SNAP, r200.base[obj_numbers], dens_profs_fit_, r_over_r200_fit.base, dens_profs_, r_over_r200.base, obj_masses, obj_centers, method, nb_bins, self.start_time, self.MASS_UNIT, suffix = suffix, lmv_internal = self.LMV_INTERNAL)
             del obj_centers; del obj_masses; del r_over_r200_fit; del dens_profs; del r_over_r200
         else:
             del obj_centers; del obj_masses
diff --git a/cosmic_profiles/dens_profs/dens_profs_classes.pyx b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
index 6922e25..b3d6cff 100644
--- a/cosmic_profiles/dens_profs/dens_profs_classes.pyx
+++ b/cosmic_profiles/dens_profs/dens_profs_classes.pyx
@@ -62,7 +62,7 @@ cdef class DensProfsBase(CosmicBase):
         print_status(rank,self.start_time,'Starting getR200() with snap {0}'.format(self.SNAP))
         
         if rank == 0:
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             return self.r200.base*l_curr_over_target
         else:
@@ -86,7 +86,7 @@ cdef class DensProfsBase(CosmicBase):
             in config.OutUnitMass_in_g
         :rtype: (N2,3) floats, (N2,) floats"""
         if rank == 0:
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             return self.xyz.base*l_curr_over_target, self.masses.base*m_curr_over_target
@@ -109,7 +109,7 @@ cdef class DensProfsBase(CosmicBase):
             isValidSelection(obj_numbers, idx_cat_len)
             subset_idx_cat = getSubSetIdxCat(self.idx_cat.base, self.obj_size.base, obj_numbers)
             centers, ms = self._getMassesCentersBase(self.xyz.base, self.masses.base, subset_idx_cat, self.obj_size.base[obj_numbers])
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             OBJECT_PROPERTIES_DTYPE = [("centre", "f8", (3,)), ("mass", "f8")]
diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index 74e66b8..cc3898c 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -79,7 +79,7 @@ def getHernquistProf(r, model_pars):
     r_s = model_pars['r_s']
     return rho_s/((r/r_s)*(1+r/r_s)**3)
 
-def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_profs, ROverR200, obj_masses, obj_centers, method, nb_bins, start_time, MASS_UNIT, suffix = '_'):
+def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_profs, ROverR200, obj_masses, obj_centers, method, nb_bins, start_time, MASS_UNIT, suffix = '_', lmv_internal = None):
     """
     Create a series of plots to analyze object shapes
     
@@ -158,7 +158,7 @@ def drawDensProfs(VIZ_DEST, SNAP, r200s, dens_profs_fit, ROverR200_fit, dens_pro
         subprocess.call(['mkdir', '-p', '{}'.format(VIZ_DEST)])
         
         # Go to outgoing unit system
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_internal, m_internal, vel_internal = config.getLMVInternal() if lmv_internal is None else lmv_internal
         m_current = m_internal/MASS_UNIT
         dens_current = m_current/l_internal**3
         dens_target = config.OutUnitMass_in_g/config.OutUnitLength_in_cm**3
diff --git a/cosmic_profiles/gadget/read_fof.py b/cosmic_profiles/gadget/read_fof.py
index 8d51b53..42d945c 100644
--- a/cosmic_profiles/gadget/read_fof.py
+++ b/cosmic_profiles/gadget/read_fof.py
@@ -27,7 +27,7 @@ def getPartType(OBJ_TYPE):
         assert OBJ_TYPE == 'gas', "Please specify either 'dm', 'gas' or 'stars' for OBJ_TYPE"
         return 0
 
-def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
+def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target = None):
     """ Retrieve FoF/SH-related DM HDF5 data from the simulation box
     
     :param HDF5_GROUP_DEST: path to snapshot, halo/subhalo data
@@ -38,11 +38,13 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
     :param PART_TYPE: which simulation particles to consider, 0 for gas, 1 for DM,
         4 for stars
     :type PART_TYPE: int
+    :param l_curr_over_target: In length unit over internal length unit, those currently set if None
+    :type l_curr_over_target: float
     :return: nb_shs (# subhalos in each FoF-halo), sh_len (size of each SH), 
         fof_sizes (size of each FoF-halo), group_r200 (R200 radius of each FoF-halo
         in units of cMpc/h)
     :rtype: double and int arrays"""
-    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, in_unit_length_in_cm): # r200s depend on the in unit length, hence it must be part of the cache key
+    def inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target): # r200s depend on the in unit length and on little h, hence they must be part of the cache key
         fof_sizes = np.empty(0, dtype = np.int32)
         nb_shs = np.empty(0, dtype = np.int32)
         sh_len = np.empty(0, dtype = np.int32)
@@ -62,8 +64,6 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             last = rank == nb_jobs_to_do - 1
         count_fof = 0
         count_sh = 0
-        l_internal, m_internal, vel_internal = config.getLMVInternal()
-        l_curr_over_target = in_unit_length_in_cm/l_internal
         for snap_run in range(rank*perrank, rank*perrank+do_sth*(perrank+last*(nb_jobs_to_do-(rank+1)*perrank))):
             g = h5py.File(r'{}'.format(hdf5GroupFilenamesList[snap_run]), 'r')
             if 'Group/GroupLenType' in g:
@@ -132,7 +132,10 @@ def getFoFSHData(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE):
             sh_len = np.hstack((sh_len, to_bcast))
         
         return nb_shs, sh_len, fof_sizes, np.float64(group_r200)
+    if l_curr_over_target is None:
+        l_internal, m_internal, vel_internal = config.getLMVInternal()
+        l_curr_over_target = config.InUnitLength_in_cm/l_internal
     if(not hasattr(getFoFSHData, "inner")):
         getFoFSHData.inner = np_cache_factory(0,0)(inner)
-    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, config.InUnitLength_in_cm)
-    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, config.InUnitLength_in_cm)
\ No newline at end of file
+    getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
+    return getFoFSHData.inner(HDF5_GROUP_DEST, RVIR_OR_R200, PART_TYPE, l_curr_over_target)
\ No newline at end of file
diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 008e1ad..0e80c58 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -72,17 +72,19 @@ class header:
 
 
 # This function reads a block of an individual file of a gadget snapshot
-def read_field(snapshot, block, ptype):
+# lmv_in, lmv_internal: In and internal unit systems, those currently set if None
+def read_field(snapshot, block, ptype, lmv_in=None, lmv_internal=None):
 
     filename, fformat = fname_format(snapshot)
     head              = header(filename)
     Masses            = head.massarr      # In units of config.InUnitMass_in_g               
     Npart             = head.npart        # Number of particles in the subfile
 
-    l_internal, m_internal, vel_internal = config.getLMVInternal()
-    l_target_over_curr = l_internal/config.InUnitLength_in_cm
-    m_target_over_curr = m_internal/config.InUnitMass_in_g
-    v_target_over_curr = vel_internal/config.InUnitVelocity_in_cm_per_s
+    if lmv_in is None: lmv_in = (config.InUnitLength_in_cm, config.InUnitMass_in_g, config.InUnitVelocity_in_cm_per_s)
+    if lmv_internal is None: lmv_internal = config.getLMVInternal()
+    l_target_over_curr = lmv_internal[0]/lmv_in[0]
+    m_target_over_curr = lmv_internal[1]/lmv_in[1]
+    v_target_over_curr = lmv_internal[2]/lmv_in[2]
 
     if block=="POS ":  
         suffix = "Coordinates"
@@ -125,7 +127,7 @@ def read_field(snapshot, block, ptype):
 # This function reads a block from an entire gadget snapshot (all files)
 # it can read several particle types at the same time. 
 # ptype has to be a list. E.g. ptype=[1], ptype=[1,2], ptype=[0,1,2,3,4,5]
-def read_block(snapshot, block, ptype, verbose=False):
+def read_block(snapshot, block, ptype, verbose=False, lmv_in=None, lmv_internal=None):
 
     # find the format of the file and read header
     filename, fformat = fname_format(snapshot)
@@ -138,10 +140,11 @@ def read_block(snapshot, block, ptype, verbose=False):
     for i in ptype:
         Ntotal += Nall[i]
     
-    l_internal, m_internal, vel_internal = config.getLMVInternal()
-    l_target_over_curr = l_internal/config.InUnitLength_in_cm
-    m_target_over_curr = m_internal/config.InUnitMass_in_g
-    v_target_over_curr = vel_internal/config.InUnitVelocity_in_cm_per_s
+    if lmv_in is None: lmv_in = (config.InUnitLength_in_cm, config.InUnitMass_in_g, config.InUnitVelocity_in_cm_per_s)
+    if lmv_internal is None: lmv_internal = config.getLMVInternal()
+    l_target_over_curr = lmv_internal[0]/lmv_in[0]
+    m_target_over_curr = lmv_internal[1]/lmv_in[1]
+    v_target_over_curr = lmv_internal[2]/lmv_in[2]
 
     if block=="POS ":  
         unit_fac = l_target_over_curr
@@ -173,7 +176,7 @@ def read_block(snapshot, block, ptype, verbose=False):
 
         # Single files (either binary or hdf5)
         elif filenum==1:
-            array[offset:offset+Nall[pt]] = read_field(snapshot, block, pt)
+            array[offset:offset+Nall[pt]] = read_field(snapshot, block, pt, lmv_in, lmv_internal)
             offset += Nall[pt]
 
         # Multi-file hdf5 snapshot
@@ -189,7 +192,7 @@ def read_block(snapshot, block, ptype, verbose=False):
                 npart = header(filename).npart[pt]
                 if npart == 0: # Gadget omits the group of a particle type in files that do not contain any such particles
                     continue
-                array[offset:offset+npart] = read_field(filename, block, pt)
+                array[offset:offset+npart] = read_field(filename, block, pt, lmv_in, lmv_internal)
                 offset += npart   
 
     if offset!=Ntotal:  
diff --git a/cosmic_profiles/shape_profs/shape_profs_classes.pyx b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
index 5af9c22..b9158f4 100644
--- a/cosmic_profiles/shape_profs/shape_profs_classes.pyx
+++ b/cosmic_profiles/shape_profs/shape_profs_classes.pyx
@@ -92,7 +92,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(self.idx_cat.base, self.obj_size.base, obj_numbers)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatLocalBase(self.xyz.base, self.masses.base, self.r200.base[obj_numbers], subset_idx_cat, self.obj_size.base[obj_numbers], ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED, self.SUFFIX)
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             SHAPE_PROF_DTYPE = [("d", "f8"), ("s", "f8"), ("q", "f8"), ("is_conv", "bool"), ("minor", "f8", (3,)), ("inter", "f8", (3,)), ("major", "f8", (3,))]
@@ -128,7 +128,7 @@ cdef class DensShapeProfsBase(DensProfsBase):
             isValidSelection(obj_numbers, nb_objects)
             subset_idx_cat = getSubSetIdxCat(self.idx_cat.base, self.obj_size.base, obj_numbers)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatGlobalBase(self.xyz.base, self.masses.base, self.r200.base[obj_numbers], subset_idx_cat, self.obj_size.base[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, self.SUFFIX)
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             SHAPE_PROF_DTYPE = [("d", "f8"), ("s", "f8"), ("q", "f8"), ("is_conv", "bool"), ("minor", "f8", (3,)), ("inter", "f8", (3,)), ("major", "f8", (3,))]
@@ -168,8 +168,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
             subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
-            d = config.LengthInternalToOut(d)
-            centers = config.LengthInternalToOut(centers)
+            l_curr_over_target = self.LMV_INTERNAL[0]/config.OutUnitLength_in_cm
+            d = d*l_curr_over_target
+            centers = centers*l_curr_over_target
             l_label, m_label, vel_lable = config.LMVLabel()
             
             # Viz all valid objects under 'obj_numbers'
@@ -186,9 +187,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 for idx, ptc in enumerate(self.idx_cat.base[offsets[obj_number]:offsets[obj_number+1]]):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
-                obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                obj = respectPBCNoRef(obj, self.L_BOX)*l_curr_over_target
                 if self.L_BOX != 0.0: # Center is inside the box, the unwrapped object might not be
-                    L_BOX_out = config.LengthInternalToOut(self.L_BOX)
+                    L_BOX_out = self.L_BOX*l_curr_over_target
                     obj = obj-L_BOX_out*np.round((np.average(obj, axis = 0)-center)/L_BOX_out)
                 # Plotting
                 fig = pyplot.figure()
@@ -266,8 +267,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
             subprocess.call(['mkdir', '-p', '{}'.format(self.VIZ_DEST)])
             
             # Go to outgoing unit system
-            d = config.LengthInternalToOut(d)
-            centers = config.LengthInternalToOut(centers)
+            l_curr_over_target = self.LMV_INTERNAL[0]/config.OutUnitLength_in_cm
+            d = d*l_curr_over_target
+            centers = centers*l_curr_over_target
             l_label, m_label, vel_lable = config.LMVLabel()
             
             # Viz all valid objects under 'obj_numbers'
@@ -284,9 +286,9 @@ cdef class DensShapeProfsBase(DensProfsBase):
                 for idx, ptc in enumerate(self.idx_cat.base[offsets[obj_number]:offsets[obj_number+1]]):
                     obj[idx] = self.xyz.base[ptc]
                     masses_obj[idx] = self.masses.base[ptc]
-                obj = config.LengthInternalToOut(respectPBCNoRef(obj, self.L_BOX))
+                obj = respectPBCNoRef(obj, self.L_BOX)*l_curr_over_target
                 if self.L_BOX != 0.0: # Center is inside the box, the unwrapped object might not be
-                    L_BOX_out = config.LengthInternalToOut(self.L_BOX)
+                    L_BOX_out = self.L_BOX*l_curr_over_target
                     obj = obj-L_BOX_out*np.round((np.average(obj, axis = 0)-center)/L_BOX_out)
                 # Plotting
                 fig = pyplot.figure()
@@ -622,7 +624,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             suffix = '_v{}_'.format(self.OBJ_TYPE)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelLocalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], ROverR200, IT_TOL, IT_WALL, IT_MIN, REDUCED, SHELL_BASED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             SHAPE_PROF_DTYPE = [("d", "f8"), ("s", "f8"), ("q", "f8"), ("is_conv", "bool"), ("minor", "f8", (3,)), ("inter", "f8", (3,)), ("major", "f8", (3,))]
@@ -664,7 +666,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             suffix = '_v{}_'.format(self.OBJ_TYPE)
             d, q, s, minor, inter, major, obj_centers, obj_masses = self._getShapeCatVelGlobalBase(xyz, velxyz, masses, self.r200.base[obj_numbers], subset_idx_cat, obj_size[obj_numbers], IT_TOL, IT_WALL, IT_MIN, REDUCED, suffix)
             del xyz; del velxyz; del masses; del idx_cat; del obj_size
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             SHAPE_PROF_DTYPE = [("d", "f8"), ("s", "f8"), ("q", "f8"), ("is_conv", "bool"), ("minor", "f8", (3,)), ("inter", "f8", (3,)), ("major", "f8", (3,))]
@@ -739,10 +741,10 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :return xyz, masses: positions in config.OutUnitLength_in_cm and masses 
             in config.OutUnitMass_in_g
         :rtype: (N2,3) floats, (N2,) floats"""
-        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)])
-        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)])
+        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)],lmv_in=self.LMV_IN,lmv_internal=self.LMV_INTERNAL)
+        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)],lmv_in=self.LMV_IN,lmv_internal=self.LMV_INTERNAL)
         if rank == 0:
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             m_curr_over_target = m_internal/config.OutUnitMass_in_g
             return xyz*l_curr_over_target, masses*m_curr_over_target
@@ -755,8 +757,8 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         
         :return xyz, masses: positions in Mpc/h (internal length units) and masses in 10^10*M_sun*h^2/(Mpc)**3
         :rtype: (N2,3) floats, (N2,) floats"""
-        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)])
-        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)])
+        xyz = readgadget.read_block(self.SNAP_DEST,"POS ",ptype=[getPartType(self.OBJ_TYPE)],lmv_in=self.LMV_IN,lmv_internal=self.LMV_INTERNAL)
+        masses = readgadget.read_block(self.SNAP_DEST,"MASS",ptype=[getPartType(self.OBJ_TYPE)],lmv_in=self.LMV_IN,lmv_internal=self.LMV_INTERNAL)
         if rank == 0:
             return xyz, masses
         else:
@@ -768,9 +770,9 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         
         :return velxyz: velocity array in config.OutUnitVelocity_in_cm_per_s
         :rtype: (N2,3) floats"""
-        velxyz = readgadget.read_block(self.SNAP_DEST,"VEL ",ptype=[getPartType(self.OBJ_TYPE)])
+        velxyz = readgadget.read_block(self.SNAP_DEST,"VEL ",ptype=[getPartType(self.OBJ_TYPE)],lmv_in=self.LMV_IN,lmv_internal=self.LMV_INTERNAL)
         if rank == 0:
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             v_curr_over_target = vel_internal/config.OutUnitVelocity_in_cm_per_s
             return velxyz*v_curr_over_target
         else:
@@ -782,7 +784,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         
         :return velxyz: velocity array in km/s
         :rtype: (N2,3) floats"""
-        velxyz = readgadget.read_block(self.SNAP_DEST,"VEL ",ptype=[getPartType(self.OBJ_TYPE)])
+        velxyz = readgadget.read_block(self.SNAP_DEST,"VEL ",ptype=[getPartType(self.OBJ_TYPE)],lmv_in=self.LMV_IN,lmv_internal=self.LMV_INTERNAL)
         if rank == 0:
             return velxyz
         else:
@@ -796,7 +798,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :rtype: (N1,) floats"""
         
         # Import hdf5 data
-        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE))
+        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE), self.LMV_IN[0]/self.LMV_INTERNAL[0])
         # Raise Error message if empty
         if len(nb_shs) == 0:
             raise ValueError("No subhalos found in HDF5 files.")
@@ -805,7 +807,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
             obj_cat, obj_r200, obj_size = calcObjCat(nb_shs, sh_len, fof_sizes, group_r200, self.MIN_NUMBER_PTCS)
             del nb_shs; del sh_len; del fof_sizes; del group_r200; del obj_cat; del obj_size
             self.r200 = obj_r200
-            l_internal, m_internal, vel_internal = config.getLMVInternal()
+            l_internal, m_internal, vel_internal = self.LMV_INTERNAL
             l_curr_over_target = l_internal/config.OutUnitLength_in_cm
             return obj_r200*l_curr_over_target
         else:
@@ -820,7 +822,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         :rtype: (N3) integers and (N1,) integers"""
         
         # Import hdf5 data
-        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE))
+        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE), self.LMV_IN[0]/self.LMV_INTERNAL[0])
         # Raise Error message if empty
         if len(nb_shs) == 0:
             raise ValueError("No subhalos found in HDF5 files.")
@@ -839,7 +841,7 @@ cdef class DensShapeProfsGadget(DensShapeProfsBase):
         print_status(rank,self.start_time,'Starting getObjInfoLocal() with snap {0}'.format(self.SNAP))
         
         self._getObjInfoBase(self.idx_cat.base, self.obj_size.base, self.OBJ_TYPE)
-        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE))
+        nb_shs, sh_len, fof_sizes, group_r200 = getFoFSHData(self.GROUP_DEST, self.RVIR_OR_R200, getPartType(self.OBJ_TYPE), self.LMV_IN[0]/self.LMV_INTERNAL[0])
         # Raise Error message if empty
         if len(nb_shs) == 0:
             raise ValueError("No subhalos found in HDF5 files.")
-- 
2.43.0


From 171a05ad549c9d90f7012f74507d2d02011c7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 36/44] fix: unreadable snapshots ended the program with exit
 status 0 instead of raising

---
 cosmic_profiles/gadget/readsnap.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index b5d3f49..73a7c1b 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -26,7 +26,6 @@ Created on Wed Apr 12 10:03:08 2023
 
 import numpy as np
 import os
-import sys
 import math
   
 # ----- Class for snapshot header ----- 
@@ -39,8 +38,7 @@ class snapshot_header:
     elif os.path.exists(filename+".0"):
       curfilename = filename+".0"
     else:
-      print("file not found:", filename)
-      sys.exit()
+      raise Exception("file not found: {}".format(filename))
       
     self.filename = filename  
     f = open(curfilename,'rb')    
@@ -60,8 +58,7 @@ class snapshot_header:
         swap = 1
         format = 1
       else:
-        print("incorrect file format encountered when reading header of", filename)
-        sys.exit()
+        raise Exception("incorrect file format encountered when reading header of {}".format(filename))
     
     self.format = format
     self.swap = swap
@@ -104,8 +101,7 @@ class snapshot_header:
 
 def find_block(filename, format, swap, block, block_num, only_list_blocks=False):
   if (not os.path.exists(filename)):
-      print("file not found:", filename)
-      sys.exit()
+      raise Exception("file not found: {}".format(filename))
             
   f = open(filename,'rb')
   f.seek(0, os.SEEK_END)
@@ -151,14 +147,12 @@ def find_block(filename, format, swap, block, block_num, only_list_blocks=False)
       blocksize_check = (np.fromfile(f,dtype=np.uint32,count=1))[0]
       if swap: blocksize_check = blocksize_check.byteswap()
       if (curblocksize != blocksize_check):
-        print("something wrong")
-        sys.exit()
+        raise Exception("something wrong with the block sizes in {}".format(filename))
       curblock_num += 1
   f.close()
       
   if ((not found) and (not only_list_blocks)):
-    print("Error: block not found")
-    sys.exit()
+    raise Exception("block {} not found in {}".format(block, filename))
     
   if (not only_list_blocks):
     return offset,blocksize
@@ -188,7 +182,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     blocksub=1
          
   if parttype not in [-1,0,1,2,3,4,5]:
-    print("wrong parttype given");  sys.exit()
+    raise Exception("wrong parttype given")
   
   if os.path.exists(filename):        
     curfilename = filename
@@ -197,8 +191,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     curfilename = filename+".0"
     single_file = False
   else:
-    print("file not found:", filename)
-    print("and:", curfilename);  sys.exit()
+    raise Exception("file not found: {} and: {}".format(filename, filename+".0"))
   
   head = snapshot_header(curfilename)
   format   = head.format
@@ -297,8 +290,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     data_for_type[5] = True
     block_num = 15+blockadd-blocksub
   else:
-    print("Sorry! Block type", block, "not known!")
-    sys.exit()
+    raise Exception("Sorry! Block type {} not known!".format(block))
   # - End of block description -
   
   actual_data_for_type = np.copy(data_for_type)  
@@ -306,8 +298,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     actual_data_for_type[:] = False
     actual_data_for_type[parttype] = True
     if data_for_type[parttype]==False:
-      print("Error: no data for specified particle type", parttype, "in the block", block)
-      sys.exit()
+      raise Exception("no data for specified particle type {} in the block {}".format(parttype, block))
   elif block=="MASS":
     actual_data_for_type[:] = True  
     
@@ -364,8 +355,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       dt = np.dtype((np.float32,np.dtype(dt).shape))
 
     if np.dtype(dt).itemsize*curpartnum != blocksize:
-      print("something wrong with blocksize! expected =",np.dtype(dt).itemsize*curpartnum,"actual =",blocksize)
-      sys.exit()
+      raise Exception("something wrong with blocksize! expected = {} actual = {}".format(np.dtype(dt).itemsize*curpartnum, blocksize))
     
     f = open(curfilename,'rb')
     f.seek(offset + add_offset*np.dtype(dt).itemsize, os.SEEK_CUR)  
-- 
2.43.0


From 63fed755a9907e9c03aab226b6064cde3b12d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 37/44] fix: a missing HDF5 data set of any block was filled
 with the mass of the mass table

---
 cosmic_profiles/gadget/readgadget.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 0e80c58..1dc70b2 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -109,7 +109,7 @@ def read_field(snapshot, block, ptype, lmv_in=None, lmv_internal=None):
         f = h5py.File(filename, 'r')
         
         if '%s%s'%(prefix,suffix) not in f:
-            if Masses[ptype] != 0.0:
+            if block=="MASS" and Masses[ptype] != 0.0:
                 array = np.ones(Npart[ptype], np.float64)*Masses[ptype]/unit_fac
             else:
                 raise Exception('Problem reading the block %s'%block)
-- 
2.43.0


From c628ef9db9fce317730eb79b40f02db7b6985694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 38/44] fix: snapshots holding fewer particles than announced
 yielded uninitialised or repeated data

---
 cosmic_profiles/gadget/readgadget.py | 9 ++++++++-
 cosmic_profiles/gadget/readsnap.py   | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readgadget.py b/cosmic_profiles/gadget/readgadget.py
index 1dc70b2..aaf0e87 100644
--- a/cosmic_profiles/gadget/readgadget.py
+++ b/cosmic_profiles/gadget/readgadget.py
@@ -115,6 +115,8 @@ def read_field(snapshot, block, ptype, lmv_in=None, lmv_internal=None):
                 raise Exception('Problem reading the block %s'%block)
         else:
             array = f[prefix+suffix][:]
+            if array.shape[0] != Npart[ptype]:
+                raise Exception('%s holds %d instead of %d particles of type %d in block %s'%(filename, array.shape[0], Npart[ptype], ptype, block))
             if block!="ID  ":  array = array/unit_fac
         f.close()
 
@@ -171,12 +173,17 @@ def read_block(snapshot, block, ptype, verbose=False, lmv_in=None, lmv_internal=
         # Format I or format II Gadget files
         if fformat=="binary":
             data = readsnap.read_block(snapshot, block, pt, verbose=verbose)
+            if data.shape[0] != Nall[pt]:
+                raise Exception('not all particles read!!!!')
             array[offset:offset+Nall[pt]] = data if block=="ID  " else data/unit_fac
             offset += Nall[pt]
 
         # Single files (either binary or hdf5)
         elif filenum==1:
-            array[offset:offset+Nall[pt]] = read_field(snapshot, block, pt, lmv_in, lmv_internal)
+            data = read_field(snapshot, block, pt, lmv_in, lmv_internal)
+            if data.shape[0] != Nall[pt]:
+                raise Exception('not all particles read!!!!')
+            array[offset:offset+Nall[pt]] = data
             offset += Nall[pt]
 
         # Multi-file hdf5 snapshot
diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 73a7c1b..4720f88 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -315,6 +315,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
   # Define the array containing the information
   data = np.empty(allpartnum,dt)
 
+  nb_read = np.int64(0)
   # Loop over all subfiles    
   for i in range(filenum):
 
@@ -361,6 +362,8 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
     f.seek(offset + add_offset*np.dtype(dt).itemsize, os.SEEK_CUR)  
     curdat = np.fromfile(f,dtype=dt,count=actual_curpartnum) # Read data
     f.close()  
+    if curdat.shape[0] != actual_curpartnum:
+      raise Exception("{} ends before block {} does".format(curfilename, block))
     if swap:  curdat.byteswap(True)  
           
     for j in range(6):
@@ -373,12 +376,16 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
           else:
             data[species_offset[j]:species_offset[j]+npart[j]] = curdat[cur_species_offset[j]:cur_species_offset[j]+npart[j]]
         species_offset[j] += npart[j]
+        nb_read += npart[j]
 
     del curdat
 
     if single_file:  break
 
 
+  if nb_read != allpartnum:
+    raise Exception("{} of {} particles found in the files of {}".format(nb_read, allpartnum, filename))
+
   if physical_velocities and block=="VEL " and redshift!=0:
     data *= math.sqrt(time) # To make sure we move from UnitVelocity a**0.5 to UnitVelocity
 
-- 
2.43.0


From db256659828e80d08da93e5122e1fbd45094dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 39/44] fix: an interrupted shape catalogue dump left files
 that later calls took for the catalogue

---
 cosmic_profiles/common/cosmic_base_class.pyx | 66 ++++++++------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 4d190f5..0f3f168 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -420,6 +420,28 @@ cdef class CosmicBase:
         else:
             return None, None, None, None, None, None, None, None
     
+    def _saveShapeCat(self, str kind, str suffix, d, q, s, minor, inter, major, obj_masses, obj_centers):
+        """ Writes a shape catalogue into ``CAT_DEST``
+        
+        The file with d is what marks a catalogue as present, hence it is the first to go and the
+        last to appear: an interrupted dump does not leave a catalogue behind that is read later on.
+        
+        :param kind: either 'local' or 'global'
+        :type kind: string
+        :param suffix: suffix for file names
+        :type suffix: string
+        :param d, q, s, minor, inter, major, obj_masses, obj_centers: shape data, in Out units
+        :type d, q, s, minor, inter, major, obj_masses, obj_centers: float arrays"""
+        # Create CAT_DEST if not available
+        subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
+        d_file = '{0}/d_{1}{2}{3}.txt'.format(self.CAT_DEST, kind, suffix, self.SNAP)
+        if os.path.exists(d_file):
+            os.remove(d_file)
+        for name, data in [('q', q), ('s', s), ('minor', minor), ('inter', inter), ('major', major), ('m', obj_masses), ('centers', obj_centers)]:
+            np.savetxt('{0}/{1}_{2}{3}{4}.txt'.format(self.CAT_DEST, name, kind, suffix, self.SNAP), data, fmt='%1.7e')
+        np.savetxt(d_file + '.part', d, fmt='%1.7e')
+        os.replace(d_file + '.part', d_file)
+    
     def _dumpShapeCatLocalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced, bint shell_based):
         """ Dumps all relevant local shape data into ``CAT_DEST``
         
@@ -468,16 +490,7 @@ cdef class CosmicBase:
                 inter = np.array([])
                 major = np.array([])
             
-            # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            self._saveShapeCat('local', suffix, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
         
     def _dumpShapeCatGlobalBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -522,16 +535,7 @@ cdef class CosmicBase:
                 inter = np.array([])
                 major = np.array([])
             
-            # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            self._saveShapeCat('global', suffix, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatLocalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced, bint shell_based):
@@ -583,16 +587,7 @@ cdef class CosmicBase:
                 inter = np.array([])
                 major = np.array([])
             
-            # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            self._saveShapeCat('local', suffix, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _dumpShapeVelCatGlobalBase(self, double[:,:] xyz, double[:,:] velxyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double IT_TOL, int IT_WALL, int IT_MIN, str suffix, bint reduced):
@@ -641,16 +636,7 @@ cdef class CosmicBase:
                 inter = np.array([])
                 major = np.array([])
             
-            # Create CAT_DEST if not available
-            subprocess.call(['mkdir', '-p', '{}'.format(self.CAT_DEST)])
-            np.savetxt('{0}/d_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), d, fmt='%1.7e')
-            np.savetxt('{0}/q_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), q, fmt='%1.7e')
-            np.savetxt('{0}/s_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), s, fmt='%1.7e')
-            np.savetxt('{0}/minor_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), minor, fmt='%1.7e')
-            np.savetxt('{0}/inter_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), inter, fmt='%1.7e')
-            np.savetxt('{0}/major_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), major, fmt='%1.7e')
-            np.savetxt('{0}/m_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_masses, fmt='%1.7e')
-            np.savetxt('{0}/centers_global{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), obj_centers, fmt='%1.7e')
+            self._saveShapeCat('global', suffix, d, q, s, minor, inter, major, obj_masses, obj_centers)
             del d; del q; del s; del minor; del inter; del major; del obj_centers; del obj_masses
     
     def _plotShapeProfsBase(self, double[:,:] xyz, double[:] masses, double[:] r200, int[:] idx_cat, int[:] obj_size, double[:] r_over_r200, double IT_TOL, int IT_WALL, int IT_MIN, bint reduced, bint shell_based, int nb_bins, str suffix = ''):
-- 
2.43.0


From 178a5673c5fe874de00a91bbfa5575e3ff51643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 40/44] fix: density fits took empty bins for data, returning
 the initial guess as a converged fit

---
 cosmic_profiles/dens_profs/dens_profs_tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cosmic_profiles/dens_profs/dens_profs_tools.py b/cosmic_profiles/dens_profs/dens_profs_tools.py
index cc3898c..cf6a21f 100644
--- a/cosmic_profiles/dens_profs/dens_profs_tools.py
+++ b/cosmic_profiles/dens_profs/dens_profs_tools.py
@@ -276,9 +276,9 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
         min_method = 'Powell'
     
     R_to_min = ROverR200*r200 # Mpc/h
-    # Discard nan values in median
-    R_to_min = R_to_min[~np.isnan(median)] # Note: np.isnan returns a boolean
-    median = median[~np.isnan(median)]
+    # Discard nan values in median, and empty bins, which have no logarithm
+    R_to_min = R_to_min[median > 0] # Note: nan > 0 is False
+    median = median[median > 0]
     # Set initial guess and minimize scalar function
     try:
         if 'rho_s' in method:
@@ -350,6 +350,8 @@ def fitDensProf(ROverR200, method, median_r200_obj_nb):
         best_fit[0] *= np.average(median)
     except ValueError: # For poor density profiles one might encounter "ValueError: `x0` violates bound constraints."
         best_fit = iguess*np.nan
+    if median.shape[0] == 0: # Nothing to fit
+        best_fit = iguess*np.nan
     return best_fit, obj_nb
 
 def fitDensProfHelper(dens_profs, ROverR200, r200s, method): # method is unhashable so @np_cache_factory(3,0) would fail
-- 
2.43.0


From cab923a85844705b63f5a978f5caf8d0ea030489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:25 +0000
Subject: [PATCH 41/44] fix: dumped local catalogues with a single radius were
 read back with the wrong shape

---
 cosmic_profiles/common/cosmic_base_class.pyx | 54 +++++++-------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/cosmic_profiles/common/cosmic_base_class.pyx b/cosmic_profiles/common/cosmic_base_class.pyx
index 0f3f168..8b078bb 100644
--- a/cosmic_profiles/common/cosmic_base_class.pyx
+++ b/cosmic_profiles/common/cosmic_base_class.pyx
@@ -119,14 +119,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = self.LMV_INTERNAL
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -134,19 +134,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
+                if d.shape[0] != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
                 else:
                     minor = np.array([])
                     inter = np.array([])
@@ -288,14 +279,14 @@ cdef class CosmicBase:
         if rank == 0:
             
             if os.path.exists('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP)):
-                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
-                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP))
+                d = np.loadtxt('{0}/d_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                q = np.loadtxt('{0}/q_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                s = np.loadtxt('{0}/s_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                minor = np.loadtxt('{0}/minor_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                inter = np.loadtxt('{0}/inter_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                major = np.loadtxt('{0}/major_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
+                obj_masses = np.loadtxt('{0}/m_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=1)
+                obj_centers = np.loadtxt('{0}/centers_local{1}{2}.txt'.format(self.CAT_DEST, suffix, self.SNAP), ndmin=2)
                 
                 l_internal, m_internal, vel_internal = self.LMV_INTERNAL
                 l_curr_over_target = l_internal/config.OutUnitLength_in_cm
@@ -303,19 +294,10 @@ cdef class CosmicBase:
                 d = d/l_curr_over_target
                 obj_centers = obj_centers/l_curr_over_target
                 obj_masses = obj_masses/m_curr_over_target
-                if d.shape[0] != 0 and d.ndim == 2:
+                if d.shape[0] != 0:
                     minor = minor.reshape(minor.shape[0], -1, 3)
                     inter = inter.reshape(inter.shape[0], -1, 3)
                     major = major.reshape(major.shape[0], -1, 3)
-                elif d.ndim == 1:
-                    minor = minor.reshape(1, -1, 3)
-                    inter = inter.reshape(1, -1, 3)
-                    major = major.reshape(1, -1, 3)
-                    obj_masses = np.array([obj_masses])
-                    obj_centers = obj_centers.reshape(1, 3)
-                    d = d.reshape(1, -1)
-                    q = q.reshape(1, -1)
-                    s = s.reshape(1, -1)
                 else:
                     minor = np.array([])
                     inter = np.array([])
-- 
2.43.0


From 90e22d9d29ebb632875c5f99d47c700c7d0baf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:25 +0000
Subject: [PATCH 42/44] fix: 32-bit integer NFAC blocks of Gadget snapshots
 were read as floats

---
 cosmic_profiles/gadget/readsnap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index 4720f88..f1f2ebf 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -353,7 +353,7 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
           data = data.astype(dt)
         
     if block!="ID  " and curpartnum>0 and np.dtype(dt).itemsize*curpartnum == blocksize * 2: # Block is in single precision
-      dt = np.dtype((np.float32,np.dtype(dt).shape))
+      dt = np.dtype((np.int32 if np.dtype(dt).base.kind=='i' else np.float32,np.dtype(dt).shape))
 
     if np.dtype(dt).itemsize*curpartnum != blocksize:
       raise Exception("something wrong with blocksize! expected = {} actual = {}".format(np.dtype(dt).itemsize*curpartnum, blocksize))
-- 
2.43.0


From 9819464fc9af2caa9028cdd4ed0045437b3269f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:25 +0000
Subject: [PATCH 43/44] fix: reading all particles of a block failed on files
 without any particle of its types

---
 cosmic_profiles/gadget/readsnap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cosmic_profiles/gadget/readsnap.py b/cosmic_profiles/gadget/readsnap.py
index f1f2ebf..5af0d8c 100644
--- a/cosmic_profiles/gadget/readsnap.py
+++ b/cosmic_profiles/gadget/readsnap.py
@@ -341,7 +341,12 @@ def read_block(filename, block, parttype=-1, physical_velocities=True,
       actual_curpartnum = curpartnum
       add_offset = np.int32(0)
       
-    if parttype>=0 and actual_curpartnum==0: # Gadget omits blocks in files that do not contain any such particles
+    if actual_curpartnum==0: # Gadget omits blocks in files that do not contain any such particles
+      if parttype<0 and block=="MASS": # All particles of this file have the masses specified in the snapshot header
+        for j in range(6):
+          data[species_offset[j]:species_offset[j]+npart[j]] = massarr[j]
+          species_offset[j] += npart[j]
+          nb_read += npart[j]
       if single_file:  break
       continue
 
-- 
2.43.0


From 9d2dde3a3015cfb47d367166eda94bfac82f0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:25 +0000
Subject: [PATCH 44/44] fix: velocity center summed the mass in single
 precision, off for halos of many particles

---
 cosmic_profiles/cython_helpers/helper_class.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cosmic_profiles/cython_helpers/helper_class.pyx b/cosmic_profiles/cython_helpers/helper_class.pyx
index 0cffa6b..64d52cd 100644
--- a/cosmic_profiles/cython_helpers/helper_class.pyx
+++ b/cosmic_profiles/cython_helpers/helper_class.pyx
@@ -95,7 +95,7 @@ cdef class CythonHelpers:
         :rtype: (3,) floats"""
         com[:] = 0.0
         cdef int run
-        cdef float mass_total = 0.0
+        cdef double mass_total = 0.0 # The mean velocity of large halos would be off in single precision
         for run in range(nns.shape[0]):
             mass_total += masses[run]
         for run in range(nns.shape[0]):
-- 
2.43.0

