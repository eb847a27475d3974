From 319953d37d1a7b2f4be4f554f1765bf9d15f9c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 01/15] fix: do not write past the m tables when the maximum m
 is 0

---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From 4b9ec6180ae388bf59a38da885f322ca70849fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 02/15] fix: reject ns=2 with m=1 modes, which read a third
 surface

---
 src/_booz_xform/init_from_vmec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..cf3a330 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -92,6 +92,9 @@ void Booz_xform::init_from_vmec(int ns,
     if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
   }
 
+  // The m=1 modes are extrapolated to the axis from two surfaces off the axis.
+  if (ns < 3 && (xm == 1).any()) throw std::runtime_error("ns must be at least 3 if there are m=1 modes");
+
   // Done with validation.
 
   iota.resize(ns_in);
-- 
2.43.0


From 3d77a45fd5c4a53c3737aecaeca6e1aca1290631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 03/15] fix: keep the verbose printout of rmnc inside the array

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index cf3a330..88d6358 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -188,11 +188,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < std::min(4, ns); j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < std::min(4, mnmax); j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From 890ed2a0d61e877c9c17cc436dfbe35efd5dd4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 04/15] fix: reject empty mode lists before looking at their
 first entry

---
 src/_booz_xform/init_from_vmec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 88d6358..89987fd 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -41,6 +41,8 @@ void Booz_xform::init_from_vmec(int ns,
       if (pres0.size() != ns) throw std::runtime_error("pres0.size() is not ns");
       if (phi0.size() != ns) throw std::runtime_error("phi0.size() is not ns");
   }
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (xm.size() != mnmax) throw std::runtime_error("Size of xm is not mnmax");
   if (xn.size() != mnmax) throw std::runtime_error("Size of xn is not mnmax");
   if (xm_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xm_nyq is not mnmax_nyq");
-- 
2.43.0


From 2cbdb15c30341bd061f583b78935fd54f9651c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 05/15] fix: validate compute_surfs when it is used, not when
 it is about to be replaced

---
 src/_booz_xform/init.cpp           | 6 ++++++
 src/_booz_xform/init_from_vmec.cpp | 5 -----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..65a2509 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cassert>
+#include <stdexcept>
 #ifdef OPENMP
 #include <omp.h>
 #endif
@@ -29,6 +30,11 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
+  for (int k = 0; k < compute_surfs.size(); k++) {
+    if (compute_surfs[k] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[k] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns_in");
+  }
+
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 89987fd..f7a0021 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -89,11 +89,6 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
-
   // The m=1 modes are extrapolated to the axis from two surfaces off the axis.
   if (ns < 3 && (xm == 1).any()) throw std::runtime_error("ns must be at least 3 if there are m=1 modes");
 
-- 
2.43.0


From b7e120c6dba413a9828a6ed87a4b59ec1d7ae279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:28 +0000
Subject: [PATCH 06/15] fix: clear the asymmetric output of an earlier run in a
 symmetric run

---
 src/_booz_xform/init.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 65a2509..21d0011 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -175,6 +175,12 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
-- 
2.43.0


From 4ec02cfb09989691e065fa03e4bbae95de809ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 07/15] fix: write zeros, not uninitialised memory, as beta_b

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From f55813c79e006eebf46e28a0089e59595cb614dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 08/15] fix: set chi to zero when a boozmn file has no chi_b

---
 src/_booz_xform/read_boozmn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..e0a8156 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -50,6 +50,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   try {
       nc.get("chi_b", chi);
   } catch (std::runtime_error error) {
+      chi.setZero();
   }
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
-- 
2.43.0


From 3d57f7eb8eee16ca7334cf38af759e1ec6dbceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:29 +0000
Subject: [PATCH 09/15] fix: check nfp and the mode counts of a wout file
 before using them

---
 src/_booz_xform/read_wout.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index bf05824..2d11e89 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -47,6 +47,10 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
 
   nc.get("iotas", iotas);
 
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
+
   xm.resize(mnmax);
   xn.resize(mnmax);
   nc.get("xm", xm);
-- 
2.43.0


From f0bcf2510ed620fb6148bffd6bff4cf3464b64d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:04 +0000
Subject: [PATCH 10/15] fix: report a chi_b that exists but cannot be read
 instead of using zeros

---
 src/_booz_xform/netcdf_reader.cpp | 8 ++++++++
 src/_booz_xform/netcdf_reader.hpp | 3 +++
 src/_booz_xform/read_boozmn.cpp   | 5 +++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..7693a91 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -31,6 +31,14 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+bool booz_xform::NetCDFReader::has(std::string varname) {
+  int var_id, retval;
+  retval = nc_inq_varid(ncid, varname.c_str(), &var_id);
+  if (retval == NC_ENOTVAR) return false;
+  if (retval) ERR(retval, varname);
+  return true;
+}
+
 void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..3096414 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -16,6 +16,9 @@ namespace booz_xform {
     NetCDFReader(std::string);
 
     size_t getdim(std::string);
+
+    /** True if the file has a variable of this name. */
+    bool has(std::string);
     
     // Scalars:
     void get(std::string, int&);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index e0a8156..a223d63 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -47,9 +47,10 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("buco_b", Boozer_I_in);
   nc.get("phi_b", phi);
   nc.get("phip_b", phip);
-  try {
+  // Files written by older versions have no chi_b.
+  if (nc.has("chi_b")) {
       nc.get("chi_b", chi);
-  } catch (std::runtime_error error) {
+  } else {
       chi.setZero();
   }
   nc.get("pres_b", pres);
-- 
2.43.0


From 9e2029657f63b5563498a6229bd7ca86e22a26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 11/15] fix: symplot legend lines of the helical modes

With helical_detail the line labelled 'Other helical' could be a mode with n = +-nfp m, and without it a
configuration whose helical modes all have n = +-nfp m got no helical legend entry: the two conditions were swapped.
---
 src/booz_xform/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..a3ab284 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -202,14 +202,14 @@ def symplot(b,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
-               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
-- 
2.43.0


From b4bde079284ef4d120b485dbf6bea1801a161afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 12/15] fix: modeplot with fewer modes than nmodes

Raised IndexError; now plots the modes there are.
---
 src/booz_xform/plots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index a3ab284..438fea9 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,8 +346,7 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
-        index = indices[jmode]
+    for index in indices:
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
                  **kwargs)
-- 
2.43.0


From 07b8bb10795fe76662f45b1eaa37d98acf7fdb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 13/15] fix: wireplot normal direction without stellarator
 symmetry

The theta derivatives used to place the solid surface left out the asymmetric amplitudes.
---
 src/booz_xform/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 438fea9..0d9762d 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -419,6 +419,8 @@ def wireplot(b,
         if b.asym:
             R += b.rmns_b[jmn, js] * sinangle
             Z += b.zmnc_b[jmn, js] * cosangle
+            d_R_d_theta += m * b.rmns_b[jmn, js] * cosangle
+            d_Z_d_theta += -m * b.zmnc_b[jmn, js] * sinangle
             nu += b.numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
-- 
2.43.0


From 996d224bab6e4ea6f7ca731d24766f94ab903611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:55 +0000
Subject: [PATCH 14/15] fix: wireplot with refine=1 draws its curves

np.mod(index, 1) is never 1.
---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 0d9762d..e9201ae 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -463,7 +463,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -471,7 +471,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -503,7 +503,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -511,7 +511,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From 7d7c2c48b0758bb64486a4d9aa8b5869249919cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 15/15] fix: init_from_vmec documents its keyword phips under
 the name it has

---
 src/_booz_xform/bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/bindings.cpp b/src/_booz_xform/bindings.cpp
index 28a3b91..90519a2 100644
--- a/src/_booz_xform/bindings.cpp
+++ b/src/_booz_xform/bindings.cpp
@@ -60,7 +60,7 @@ need to call this function directly.
 :param bsubvmns0: Vmec's original bsubvmns array, on the half grid.
   For stellarator-symmetric configurations this array is ignored and need not
   be specified.
-:param phip: Phip on vmec's full grid. (Defaults to empty Vector)
+:param phips: Phip on vmec's full grid. (Defaults to empty Vector)
 :param chi: chi on vmec's full grid. (Defaults to empty Vector)
 :param pres: pressure on vmec's full grid. (Defaults to empty Vector)
 :param phi: phi on vmec's full grid. (Defaults to empty Vector)
-- 
2.43.0

