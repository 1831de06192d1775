From 7ec6bc0a81705e2bed3292ea4c20bdf2d5ce1682 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 01/17] fix: initialize all public scalars in the constructor

---
 src/_booz_xform/booz_xform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_booz_xform/booz_xform.cpp b/src/_booz_xform/booz_xform.cpp
index 0f7e571..142ff71 100644
--- a/src/_booz_xform/booz_xform.cpp
+++ b/src/_booz_xform/booz_xform.cpp
@@ -9,6 +9,18 @@ void Booz_xform::defaults() {
   mboz = 16;
   nboz = 16;
   aspect = 0;
+  toroidal_flux = 0;
+  asym = false;
+  nfp = 0;
+  mpol = 0;
+  ntor = 0;
+  mnmax = 0;
+  mpol_nyq = 0;
+  ntor_nyq = 0;
+  mnmax_nyq = 0;
+  ns_in = 0;
+  ns_b = 0;
+  mnboz = 0;
 }
 
 Booz_xform::Booz_xform() {
-- 
2.43.0


From 0a2f258c01b725fc347b8f22f8a807ab730fbcbe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 02/17] fix: clear asymmetric outputs when a symmetric run
 follows an asymmetric one

---
 src/_booz_xform/init.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..1f34650 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -169,6 +169,13 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    // These arrays may have been filled by a previous asymmetric calculation.
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
-- 
2.43.0


From 1f562982a24301bd16ffa4b936b5048de53a8c94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 03/17] fix: do not write past the trig tables when the maximum
 poloidal mode number is 0

---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From b0175327ec534084596e9387b0e075fe85e3dd13 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 04/17] fix: require ns >= 3, since the m=1 extrapolation reads
 the third full-grid point

---
 src/_booz_xform/init_from_vmec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..25b5639 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -31,7 +31,8 @@ void Booz_xform::init_from_vmec(int ns,
 
   // Do some validation.
 
-  if (ns < 2) throw std::runtime_error("ns must be at least 2");
+  // Three full-grid points are needed for the extrapolation of the m=1 modes to the axis.
+  if (ns < 3) throw std::runtime_error("ns must be at least 3");
   if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
   if (iotas.size() != ns) throw std::runtime_error("iotas.size() is not ns");
   bool skip_phip0 = (phip0.size()==0);
-- 
2.43.0


From 89929b3b0e18b79b632a57802b534a0b47272b2c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 05/17] fix: bound the verbose>1 printout by the size of rmnc0

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 25b5639..7dad8d4 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -186,11 +186,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < 4 && j < ns; j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < 4 && j < mnmax; j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From 7490981406449823317c42c4dabbe12a5fbe14d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 06/17] fix: validate compute_surfs in run(), where it is used,
 rather than rejecting stale values when new data are loaded

---
 src/_booz_xform/init_from_vmec.cpp | 5 -----
 src/_booz_xform/run.cpp            | 6 ++++++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 7dad8d4..9a5f35a 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -88,11 +88,6 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
-
   // Done with validation.
 
   iota.resize(ns_in);
diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index f593e7a..377f76a 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <stdexcept>
 #include "booz_xform.hpp"
 
 using namespace booz_xform;
@@ -10,6 +11,11 @@ void Booz_xform::run() {
     std::cout << std::endl;
   }
 
+  for (int j = 0; j < compute_surfs.size(); j++) {
+    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[j] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns_in");
+  }
+
   init();
 
   if (verbose > 0) {
-- 
2.43.0


From 1f24fdf723316c1b438721f4065f1fc1f1efee33 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 07/17] fix: write the zeroed beta_b rather than the
 uninitialized pres_b

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From 64c59e660b6ef52e5f7d245c8a95dafae11911ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 08/17] fix: do not leave chi uninitialized if chi_b is absent
 in a boozmn file

---
 src/_booz_xform/read_boozmn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..d56ee08 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -50,6 +50,8 @@ void Booz_xform::read_boozmn(std::string filename) {
   try {
       nc.get("chi_b", chi);
   } catch (std::runtime_error error) {
+      // chi_b is absent in files from older versions.
+      chi.setZero();
   }
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
-- 
2.43.0


From 42ffacaa9fd4457d542bf27e2aca8e4251d91697 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 09/17] fix: set aspect, Boozer_G and Boozer_I when reading a
 boozmn file

---
 src/_booz_xform/read_boozmn.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index d56ee08..fffb8f5 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -19,6 +19,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   asym = (bool) asym_int;
 
   nc.get("nfp_b", nfp);
+  nc.get("aspect_b", aspect);
 
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
@@ -71,6 +72,13 @@ void Booz_xform::read_boozmn(std::string filename) {
   // Fortran jlist is 1-based and includes an extra 1 from the 0 at
   // the first entry of half-grid quantities. compute_surfs is 0-based.
   for (j = 0; j < ns_b; j++) compute_surfs[j] -= 2;
+
+  Boozer_G.resize(ns_b);
+  Boozer_I.resize(ns_b);
+  for (j = 0; j < ns_b; j++) {
+      Boozer_G[j] = Boozer_G_in[compute_surfs[j] + 1];
+      Boozer_I[j] = Boozer_I_in[compute_surfs[j] + 1];
+  }
   if (verbose > 0) std::cout << "Read compute_surfs=" << compute_surfs << std::endl;
 
   bmnc_b.resize(mnboz, ns_b);
-- 
2.43.0


From 06db0f404a607966998d0237e36046dffc07a985 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 10/17] fix: close NetCDF files when an error occurs

---
 src/_booz_xform/netcdf_reader.cpp | 11 ++++++++++-
 src/_booz_xform/netcdf_reader.hpp |  2 ++
 src/_booz_xform/netcdf_writer.cpp |  7 +++++++
 src/_booz_xform/netcdf_writer.hpp |  2 ++
 4 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..3b7fecf 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -11,8 +11,16 @@ booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
   if ((retval = nc_open(filename.c_str(), NC_NOWRITE, &ncid)))
     ERR(retval, filename);
   // Get the number of dimensions, variables, etc:
-  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid)))
+  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid))) {
+    nc_close(ncid);
     ERR(retval, filename);
+  }
+  is_open = true;
+}
+
+booz_xform::NetCDFReader::~NetCDFReader() {
+  // Reached with the file still open if an error occurred.
+  if (is_open) nc_close(ncid);
 }
 
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
@@ -82,5 +90,6 @@ void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
 
 void booz_xform::NetCDFReader::close() {
   int retval;
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval, "close()");
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..6f62f04 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -9,11 +9,13 @@ namespace booz_xform {
    */
   class NetCDFReader {
   private:
+    bool is_open;
     int ncid, ndims, nvars, ngatts, unlimdimid;
     static void ERR(int, std::string);
     
   public:
     NetCDFReader(std::string);
+    ~NetCDFReader();
 
     size_t getdim(std::string);
     
diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index dca832a..a1c3512 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -19,6 +19,12 @@ booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) {
   // in the file type, but such files cannot be read with
   // scipy.io.netcdf.
   if ((retval = nc_create(filename.c_str(), NC_CLOBBER, &ncid))) ERR(retval);
+  is_open = true;
+}
+
+booz_xform::NetCDFWriter::~NetCDFWriter() {
+  // Reached with the file still open if an error occurred.
+  if (is_open) nc_close(ncid);
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
@@ -163,6 +169,7 @@ void booz_xform::NetCDFWriter::write_and_close() {
   }
   
   // Close the file
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval);
 }
 
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 28730e0..3241367 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -25,6 +25,7 @@ namespace booz_xform {
    */
   class NetCDFWriter {
   private:
+    bool is_open;
     int ncid;
     std::vector<int> var_ids;
     std::vector<void*> pointers;
@@ -34,6 +35,7 @@ namespace booz_xform {
     
   public:
     NetCDFWriter(std::string);
+    ~NetCDFWriter();
     dim_id_type dim(std::string, int);
     void add_attribute(int, std::string, std::string);
     
-- 
2.43.0


From 927b38d64192d4a523b59ed9858e48ab888a0917 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 11/17] fix: modeplot with nmodes larger than the number of
 modes

---
 src/booz_xform/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..fc5dc72 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,7 +346,7 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
+    for jmode in range(len(indices)):
         index = indices[jmode]
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
-- 
2.43.0


From aed87239686dd490b50c474c77e3b61d43b382d8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 12/17] fix: include the asymmetric modes in the surface normal
 of wireplot

---
 src/booz_xform/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index fc5dc72..433c1cc 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -420,6 +420,8 @@ def wireplot(b,
         if b.asym:
             R += b.rmns_b[jmn, js] * sinangle
             Z += b.zmnc_b[jmn, js] * cosangle
+            d_R_d_theta += m * b.rmns_b[jmn, js] * cosangle
+            d_Z_d_theta += -m * b.zmnc_b[jmn, js] * sinangle
             nu += b.numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
-- 
2.43.0


From a55837189dd2b81e0ddac726d2cef590ae312b3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 13/17] fix: wireplot showed no curves for refine=1

---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 433c1cc..2e0b634 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -464,7 +464,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -472,7 +472,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -504,7 +504,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -512,7 +512,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From 4859e8b5f129075b5c4fd16c62cbfe49b8a13f40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 14/17] fix: do not show the original coordinates in wireplot
 when there is no input data

---
 src/booz_xform/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 2e0b634..1e2e987 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -478,7 +478,8 @@ def wireplot(b,
                                      showlegend=False))
 
     # Also show curves along which the original angles are constant:
-    if orig:
+    # (not available if b was read from a boozmn file):
+    if orig and len(b.xm) > 0:
         js = b.compute_surfs[js]
         R = np.zeros_like(theta)
         Z = np.zeros_like(theta)
-- 
2.43.0


From a4d3672b8d2eed75b92f4c58b36253bfdcd7ca02 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:41 +0000
Subject: [PATCH 15/17] fix: modeplot and wireplot take the surface of largest
 s as outermost, not the last in the list

---
 src/booz_xform/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1e2e987..3b9ab89 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -328,7 +328,8 @@ def modeplot(b,
     # Sort by the absolute value of the mode amplitudes at the
     # outermost radius. Minus sign gives a decreasing instead of
     # increasing sort.
-    sorted_indices = np.argsort(-np.abs(data[:, -1]))
+    # The output surfaces need not be in increasing order.
+    sorted_indices = np.argsort(-np.abs(data[:, np.argmax(b.s_b)]))
     indices = sorted_indices[:nmodes]
 
     if sqrts:
@@ -404,7 +405,7 @@ def wireplot(b,
 
     # If not otherwise specified, choose the outermost surface:
     if js is None:
-        js = b.ns_b - 1
+        js = np.argmax(b.s_b)
 
     for jmn in range(b.mnboz):
         m = b.xm_b[jmn]
-- 
2.43.0


From 3068f32c2e3272d31b19496fde763daec4bfa2bf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:41 +0000
Subject: [PATCH 16/17] fix: symplot legend entry of the helical modes uses a
 mode of that group with and without helical_detail

---
 src/booz_xform/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 3b9ab89..54fa711 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -202,14 +202,14 @@ def symplot(b,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
-               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
-- 
2.43.0


From 4324dc117b39eca7eed5c8fe754403dbfba69743 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:14 +0000
Subject: [PATCH 17/17] fix: symplot draws no mode beyond max_m and max_n for
 the legend

---
 src/booz_xform/plots.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 54fa711..830a50d 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -156,6 +156,9 @@ def symplot(b,
         ymin = np.max(data) * 1e-4
     
     mnmax = len(b.xm_b)
+    # The legend entries must be modes that are shown.
+    shown = [imode for imode in range(mnmax)
+             if np.abs(b.xm_b[imode]) <= max_m and np.abs(b.xn_b[imode]) <= max_n * b.nfp]
 
     if sqrts:
         rad = np.sqrt(b.s_b)
@@ -174,41 +177,41 @@ def symplot(b,
         
     # First, plot just the 1st mode of each type, so the legend looks nice.
     if B0:
-        for imode in range(mnmax):
+        for imode in shown:
             if b.xn_b[imode] == 0 and b.xm_b[imode] == 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=background_color,
                              label='m = 0, n = 0 (Background)', **kwargs)
                 break
-    for imode in range(mnmax):
+    for imode in shown:
         if b.xn_b[imode] == 0 and b.xm_b[imode] != 0:
             plt.plot(rad, my_abs(data[imode, :]), color=QA_color,
                          label=r'm $\ne$ 0, n = 0 (Quasiaxisymmetric)', **kwargs)
             break
-    for imode in range(mnmax):
+    for imode in shown:
         if b.xn_b[imode] != 0 and b.xm_b[imode] == 0:
             plt.plot(rad, my_abs(data[imode, :]), color=mirror_color,
                          label=r'm = 0, n $\ne$ 0 (Mirror)', **kwargs)
             break
 
     if helical_detail:
-        for imode in range(mnmax):
+        for imode in shown:
             if b.xn_b[imode] == b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_plus_color,
                              label=r'n = n$_{fp}$ m (Helical)', **kwargs)
                 break
-        for imode in range(mnmax):
+        for imode in shown:
             if b.xn_b[imode] == -b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_minus_color,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
-        for imode in range(mnmax):
+        for imode in shown:
             if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
                and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
-        for imode in range(mnmax):
+        for imode in shown:
             if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
-- 
2.43.0

