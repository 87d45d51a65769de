From cb9a5dcf7b65edcd3407845c775f59dd449ada3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 01/34] fix: backward neighbour along Z in MHD 3D
 compute_limited_slope used k+1 instead of k-1

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index cd068c7..a062d1c 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -139,7 +139,7 @@ public:
     // clang-format off
     const auto b       = udata(i          , j          , k          , component);
     const auto b_plus  = udata(i + delta_i, j + delta_j, k + delta_k, component);
-    const auto b_minus = udata(i - delta_i, j - delta_j, k + delta_k, component);
+    const auto b_minus = udata(i - delta_i, j - delta_j, k - delta_k, component);
     // clang-format on
 
     const real_t dlft = params.settings.slope_type * (b - b_minus);
-- 
2.43.0


From ab542913005f9397432fb844167b49b12e12c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 02/34] fix: MHD 3D edge reconstruction must not add transverse
 slopes of By onto an already reconstructed or centered value twice

---
 src/muscl/MHDRunFunctors3D.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/muscl/MHDRunFunctors3D.h b/src/muscl/MHDRunFunctors3D.h
index feef699..6f76a18 100644
--- a/src/muscl/MHDRunFunctors3D.h
+++ b/src/muscl/MHDRunFunctors3D.h
@@ -1500,12 +1500,7 @@ public:
     {
       qEdge[IB] = B0 + 0.5 * (sign_b0 * dB0d1);
     }
-    else
-    {
-      qEdge[IB] += 0.5 * (sign_dq0 * dq0[IB] + sign_dq1 * dq1[IB]);
-    }
-
-    if (dir1 == IY)
+    else if (dir1 == IY)
     {
       qEdge[IB] = B1 + 0.5 * (sign_b1 * dB1d0);
     }
-- 
2.43.0


From cb366451ed7b32b1b464e3fc9a11bbe090738b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 03/34] fix: 3D hydro Riemann dispatch ignored the HLL solver
 and left the flux uninitialised

---
 src/shared/RiemannSolvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/RiemannSolvers.h b/src/shared/RiemannSolvers.h
index 05c3396..c6be4f9 100644
--- a/src/shared/RiemannSolvers.h
+++ b/src/shared/RiemannSolvers.h
@@ -619,6 +619,11 @@ riemann_hydro(const HydroState3d & qleft,
 
     riemann_approx<HydroState3d>(qleft, qright, qgdnv, flux, params);
   }
+  else if (params.riemannSolverType == RIEMANN_HLL)
+  {
+
+    riemann_hll<HydroState3d>(qleft, qright, qgdnv, flux, params);
+  }
   else if (params.riemannSolverType == RIEMANN_HLLC)
   {
 
-- 
2.43.0


From 4645c911cf7b23a237ef3dd1caa33d892bd5b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 04/34] fix: hydro slopes were left uninitialised for slope
 types other than 0, 1, 2

---
 src/muscl/HydroBaseFunctor2D.h | 2 +-
 src/muscl/HydroBaseFunctor3D.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroBaseFunctor2D.h b/src/muscl/HydroBaseFunctor2D.h
index 37f44fe..41260b6 100644
--- a/src/muscl/HydroBaseFunctor2D.h
+++ b/src/muscl/HydroBaseFunctor2D.h
@@ -485,7 +485,7 @@ public:
 
     real_t slope_type = params.settings.slope_type;
 
-    if (slope_type == 0)
+    if (slope_type != 1 && slope_type != 2) // first order
     {
 
       dqX[ID] = ZERO_F;
diff --git a/src/muscl/HydroBaseFunctor3D.h b/src/muscl/HydroBaseFunctor3D.h
index a8f6622..c7a52ca 100644
--- a/src/muscl/HydroBaseFunctor3D.h
+++ b/src/muscl/HydroBaseFunctor3D.h
@@ -495,7 +495,7 @@ public:
 
     real_t slope_type = params.settings.slope_type;
 
-    if (slope_type == 0)
+    if (slope_type != 1 && slope_type != 2) // first order
     {
 
       dqX[ID] = ZERO_F;
-- 
2.43.0


From 809c304f0703b6e6af7d1a646441c4d73fe6afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 05/34] fix: 2D MHD slopes were left uninitialised for
 slope_type=0

---
 src/muscl/MHDBaseFunctor2D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/MHDBaseFunctor2D.h b/src/muscl/MHDBaseFunctor2D.h
index 1cebea3..1723f95 100644
--- a/src/muscl/MHDBaseFunctor2D.h
+++ b/src/muscl/MHDBaseFunctor2D.h
@@ -366,6 +366,13 @@ public:
     MHDState & dqX = dq[IX];
     MHDState & dqY = dq[IY];
 
+    // default: no slope (slope_type = 0)
+    for (int nVar = 0; nVar < MHD_NBVAR; ++nVar)
+    {
+      dqX[nVar] = ZERO_F;
+      dqY[nVar] = ZERO_F;
+    }
+
     if (slope_type == 1 or slope_type == 2)
     { // minmod or average
 
@@ -416,6 +423,9 @@ public:
       CENTER = 1
     };
 
+    // default: no slope (slope_type = 0)
+    for (int nVar = 0; nVar < MHD_NBVAR; ++nVar)
+      dq[nVar] = ZERO_F;
 
     if (slope_type == 1 or slope_type == 2)
     { // minmod or average
-- 
2.43.0


From 96895c0ec425faf7fd6e268d6fe7c26ed6f777aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 06/34] fix: Riemann solver of the other family left numerical
 fluxes uninitialised

---
 src/shared/HydroParams.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 2a744e6..0f9a0f5 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -200,6 +200,21 @@ HydroParams::setup(ConfigMap & configMap)
     riemannSolverType = RIEMANN_APPROX;
   }
 
+  // a Riemann solver of the other family would leave the numerical fluxes uninitialized
+  if (mhdEnabled and riemannSolverType != RIEMANN_LLF and riemannSolverType != RIEMANN_HLL and
+      riemannSolverType != RIEMANN_HLLD)
+  {
+    std::cout << "Riemann Solver specified in parameter file is not available for MHD\n";
+    std::cout << "Use the default one : hlld\n";
+    riemannSolverType = RIEMANN_HLLD;
+  }
+  if (!mhdEnabled and riemannSolverType == RIEMANN_HLLD)
+  {
+    std::cout << "Riemann Solver specified in parameter file is only available for MHD\n";
+    std::cout << "Use the default one : approx\n";
+    riemannSolverType = RIEMANN_APPROX;
+  }
+
   implementationVersion = configMap.getFloat("OTHER", "implementationVersion", 0);
   if (implementationVersion != 0 and implementationVersion != 1 and implementationVersion != 2)
   {
-- 
2.43.0


From 3b8660da316b0e524e41bf653fa24958df11fc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:39 +0000
Subject: [PATCH 07/34] fix: 2D MHD halved the cell-centered Bz when converting
 to primitive variables

---
 src/muscl/MHDRunFunctors2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDRunFunctors2D.h b/src/muscl/MHDRunFunctors2D.h
index 51c6592..6aafd2e 100644
--- a/src/muscl/MHDRunFunctors2D.h
+++ b/src/muscl/MHDRunFunctors2D.h
@@ -136,7 +136,7 @@ public:
       // get mag field in neighbor cells
       magFieldNeighbors[IX] = Udata(i + 1, j, IA);
       magFieldNeighbors[IY] = Udata(i, j + 1, IB);
-      magFieldNeighbors[IZ] = 0.0;
+      magFieldNeighbors[IZ] = uLoc[IC]; // no z dependence: Bz is cell-centered
 
       // get primitive variables in current cell
       constoprim_mhd(uLoc, magFieldNeighbors, c, qLoc);
-- 
2.43.0


From 19a7724f0e96d048b96388fb161cf3c7e35b8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 08/34] fix: hydro half-step predictor scaled transverse source
 terms with dt/dx of the face normal instead of their own direction (wrong for
 dx != dy)

---
 src/muscl/HydroBaseFunctor2D.h | 40 +++++++++----------
 src/muscl/HydroBaseFunctor3D.h | 72 +++++++++++++++++-----------------
 2 files changed, 57 insertions(+), 55 deletions(-)

diff --git a/src/muscl/HydroBaseFunctor2D.h b/src/muscl/HydroBaseFunctor2D.h
index 41260b6..a98c286 100644
--- a/src/muscl/HydroBaseFunctor2D.h
+++ b/src/muscl/HydroBaseFunctor2D.h
@@ -245,48 +245,48 @@ public:
     real_t dvy = dqY[IV];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - (dux + dvy) * r;
-    real_t sp0 = -u * dpx - v * dpy - (dux + dvy) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - (dpy) / r;
+    real_t sr0 = (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
diff --git a/src/muscl/HydroBaseFunctor3D.h b/src/muscl/HydroBaseFunctor3D.h
index c7a52ca..85b3381 100644
--- a/src/muscl/HydroBaseFunctor3D.h
+++ b/src/muscl/HydroBaseFunctor3D.h
@@ -314,75 +314,77 @@ public:
     real_t dwz = dqZ[IW];
 
     // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - w * drz - (dux + dvy + dwz) * r;
-    real_t sp0 = -u * dpx - v * dpy - w * dpz - (dux + dvy + dwz) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - w * duz - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - w * dvz - (dpy) / r;
-    real_t sw0 = -u * dwx - v * dwy - w * dwz - (dpz) / r;
+    real_t sr0 =
+      (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy + (-w * drz - dwz * r) * dtdz;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy + (-w * duz) * dtdz;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy + (-w * dvz) * dtdz;
+    real_t sw0 = (-u * dwx) * dtdx + (-v * dwy) * dtdy + (-w * dwz - dpz / r) * dtdz;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy +
+                 (-w * dpz - dwz * gamma0 * p) * dtdz;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w - HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w + HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w - HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w + HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p - HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u - HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v - HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w - HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r - HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMAX)
     {
       // Top state at bottom interface
-      qface[ID] = r + HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p + HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u + HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v + HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w + HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r + HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
-- 
2.43.0


From f6cf924f882f138277ccaad3c94ec23a8104ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 09/34] fix: gravity problems without gravity enabled write an
 unallocated array

The initial conditions rayleigh_taylor, rising_bubble and disk store a gravity
field unconditionally, but the array is only allocated when gravity is enabled
in the parameter file: such runs crashed at start-up.
---
 src/muscl/HydroInitFunctors2D.h | 21 +++++++++++++++------
 src/muscl/HydroInitFunctors3D.h | 27 ++++++++++++++++++---------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 198b8a7..4c45f1e 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -775,8 +775,11 @@ public:
     Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
 
     // init gravity field
-    gravity(i, j, IX) = gravity_x;
-    gravity(i, j, IY) = gravity_y;
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, IX) = gravity_x;
+      gravity(i, j, IY) = gravity_y;
+    }
 
   } // end operator ()
 
@@ -890,8 +893,11 @@ public:
     Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
 
     // init gravity field
-    gravity(i, j, IX) = gravity_x;
-    gravity(i, j, IY) = gravity_y;
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, IX) = gravity_x;
+      gravity(i, j, IY) = gravity_y;
+    }
 
   } // end operator ()
 
@@ -981,8 +987,11 @@ public:
     {
       real_t gx, gy, gz;
       grav.eval(x, y, 0, gx, gy, gz);
-      gravity(i, j, IX) = gx;
-      gravity(i, j, IY) = gy;
+      if (gravity.is_allocated())
+      {
+        gravity(i, j, IX) = gx;
+        gravity(i, j, IY) = gy;
+      }
     }
 
     {
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 977bc1f..2bf7e81 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -664,9 +664,12 @@ public:
       (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1);
 
     // init gravity field
-    gravity(i, j, k, IX) = gravity_x;
-    gravity(i, j, k, IY) = gravity_y;
-    gravity(i, j, k, IZ) = gravity_z;
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, k, IX) = gravity_x;
+      gravity(i, j, k, IY) = gravity_y;
+      gravity(i, j, k, IZ) = gravity_z;
+    }
 
   } // end operator ()
 
@@ -789,9 +792,12 @@ public:
       (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1.0);
 
     // init gravity field
-    gravity(i, j, k, IX) = gravity_x;
-    gravity(i, j, k, IY) = gravity_y;
-    gravity(i, j, k, IZ) = gravity_z;
+    if (gravity.is_allocated())
+    {
+      gravity(i, j, k, IX) = gravity_x;
+      gravity(i, j, k, IY) = gravity_y;
+      gravity(i, j, k, IZ) = gravity_z;
+    }
 
   } // end operator ()
 
@@ -887,9 +893,12 @@ public:
     {
       real_t gx, gy, gz;
       grav.eval(x, y, z, gx, gy, gz);
-      gravity(i, j, k, IX) = gx;
-      gravity(i, j, k, IY) = gy;
-      gravity(i, j, k, IZ) = gz;
+      if (gravity.is_allocated())
+      {
+        gravity(i, j, k, IX) = gx;
+        gravity(i, j, k, IY) = gy;
+        gravity(i, j, k, IZ) = gz;
+      }
     }
 
     {
-- 
2.43.0


From ba901cff24852bf3c889e4335990a99044ef6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 10/34] fix: implode problem stored velocity instead of
 momentum

---
 src/muscl/HydroInitFunctors2D.h   |  8 ++++----
 src/muscl/HydroInitFunctors3D.h   | 12 ++++++------
 src/muscl/MHDInitFunctors2D.h     |  8 ++++----
 src/muscl/MHDInitFunctors3D.h     | 12 ++++++------
 src/sdm/init/InitImplodeFunctor.h | 20 ++++++++++----------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 4c45f1e..bf86474 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -105,15 +105,15 @@ public:
     {
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
     }
     else
     {
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 2bf7e81..edc062b 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -147,18 +147,18 @@ public:
       Udata(i, j, k, ID) = rho_out;
       Udata(i, j, k, IP) =
         p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
     }
     else
     {
       Udata(i, j, k, ID) = rho_in;
       Udata(i, j, k, IP) =
         p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 09f38ce..b45462c 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -111,8 +111,8 @@ public:
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out) +
                         0.5 * (Bx_out * Bx_out + By_out * By_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_out;
       Udata(i, j, IBY) = By_out;
@@ -123,8 +123,8 @@ public:
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in) +
                         0.5 * (Bx_in * Bx_in + By_in * By_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_in;
       Udata(i, j, IBY) = By_in;
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 5e996a4..01fdcf0 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -121,9 +121,9 @@ public:
       Udata(i, j, k, IP) = p_out / (gamma0 - 1.0) +
                            0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out) +
                            0.5 * (Bx_out * Bx_out + By_out * By_out + Bz_out * Bz_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
       Udata(i, j, k, IBX) = Bx_out;
       Udata(i, j, k, IBY) = By_out;
       Udata(i, j, k, IBZ) = Bz_out;
@@ -134,9 +134,9 @@ public:
       Udata(i, j, k, IP) = p_in / (gamma0 - 1.0) +
                            0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in) +
                            0.5 * (Bx_in * Bx_in + By_in * By_in + Bz_in * Bz_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
       Udata(i, j, k, IBX) = Bx_in;
       Udata(i, j, k, IBY) = By_in;
       Udata(i, j, k, IBZ) = Bz_in;
diff --git a/src/sdm/init/InitImplodeFunctor.h b/src/sdm/init/InitImplodeFunctor.h
index 371d01f..245c07b 100644
--- a/src/sdm/init/InitImplodeFunctor.h
+++ b/src/sdm/init/InitImplodeFunctor.h
@@ -125,16 +125,16 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_out;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_out;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_out;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_out * u_out;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_out * v_out;
         }
         else
         {
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_in;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_in;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_in;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_in * u_in;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_in * v_in;
         }
 
       } // end for idx
@@ -231,18 +231,18 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_out / (gamma0 - 1.0) +
               0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_out * u_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_out * v_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_out * w_out;
           }
           else
           {
             Udata(i, j, k, dofMap(idx, idy, idz, ID)) = rho_in;
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_in * u_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_in * v_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_in * w_in;
           }
 
         } // end for idx
-- 
2.43.0


From e89f095bb440cd00bff72cc4c876101cbf7e9222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 11/34] fix: 2D MHD field loop energy omitted rho vz^2, and vz
 depended on the MPI process grid

---
 src/muscl/MHDInitFunctors2D.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index b45462c..7a9aef7 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -842,9 +842,14 @@ public:
 #ifdef USE_MPI
     const int i_mpi = params.myMpiPos[IX];
     const int j_mpi = params.myMpiPos[IY];
+    // global sizes
+    const int nx_g = nx * params.mx;
+    const int ny_g = ny * params.my;
 #else
     const int i_mpi = 0;
     const int j_mpi = 0;
+    const int nx_g = nx;
+    const int ny_g = ny;
 #endif
 
     const real_t xmin = params.xmin;
@@ -870,7 +875,7 @@ public:
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
       real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
 
-      real_t diag = sqrt(1.0 * (nx * nx + ny * ny + nz * nz));
+      real_t diag = sqrt(1.0 * (nx_g * nx_g + ny_g * ny_g + nz * nz));
       real_t r = sqrt(x * x + y * y);
 
       // density
@@ -927,7 +932,9 @@ public:
           1.0f / (gamma0 - 1.0) +
           0.5 * (0.25 * SQR(Udata(i, j, IA) + Udata(i + 1, j, IA)) +
                  0.25 * SQR(Udata(i, j, IB) + Udata(i, j + 1, IB))) +
-          0.5 * (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV)) /
+          0.5 *
+            (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV) +
+             Udata(i, j, IW) * Udata(i, j, IW)) /
             Udata(i, j, ID);
       }
     }
-- 
2.43.0


From 258215c59c9dbdc1d73dd88724c0ffde06d18dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 12/34] fix: MHD field loop energy read unset ghost faces in
 the last inner cells

---
 src/muscl/MHDInitFunctors2D.h | 4 +++-
 src/muscl/MHDInitFunctors3D.h | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 7a9aef7..c5ee5d7 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -869,7 +869,9 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
-    if (i >= ghostWidth and i < isize - ghostWidth and j >= ghostWidth and j < jsize - ghostWidth)
+    // one more cell on the right : do_init_energy needs the right faces of the last inner cells
+    if (i >= ghostWidth and i <= isize - ghostWidth and j >= ghostWidth and
+        j <= jsize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 01fdcf0..8c2e69b 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -924,9 +924,10 @@ public:
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
     // clang-format off
-    if (i >= ghostWidth and i < isize - ghostWidth and
-        j >= ghostWidth and j < jsize - ghostWidth and
-        k >= ghostWidth and k < ksize - ghostWidth)
+    // one more cell on the right : do_init_energy needs the right faces of the last inner cells
+    if (i >= ghostWidth and i <= isize - ghostWidth and
+        j >= ghostWidth and j <= jsize - ghostWidth and
+        k >= ghostWidth and k <= ksize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-- 
2.43.0


From de3633c9989f4d7773db6e06bd1e7bf331736aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:29 +0000
Subject: [PATCH 13/34] fix: Rayleigh-Taylor initial energy omitted the kinetic
 energy of the perturbation

---
 src/muscl/HydroInitFunctors2D.h | 3 ++-
 src/muscl/HydroInitFunctors3D.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index bf86474..caf3db9 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -772,7 +772,8 @@ public:
     // initial hydrostatic equilibrium :
     // -dP/dz + rho*g = 0
     // P = P0 + rho g z
-    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
+    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0) +
+                      0.5 * Udata(i, j, IV) * Udata(i, j, IV) / Udata(i, j, ID);
 
     // init gravity field
     if (gravity.is_allocated())
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index edc062b..6928b2c 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -661,7 +661,8 @@ public:
       amplitude * (1 + cos(2 * M_PI * x / Lx)) * (1 + cos(2 * M_PI * y / Ly)) / 4;
 
     Udata(i, j, k, IE) =
-      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1);
+      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1) +
+      0.5 * Udata(i, j, k, IW) * Udata(i, j, k, IW) / Udata(i, j, k, ID);
 
     // init gravity field
     if (gravity.is_allocated())
-- 
2.43.0


From 39cd99eb09fd2dd0d5924edf1c725e81a551d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:54 +0000
Subject: [PATCH 14/34] fix: EulerEquations::compute_speed_of_sound returned
 the square of the speed of sound

---
 src/shared/EulerEquations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/EulerEquations.h b/src/shared/EulerEquations.h
index fa63c53..de1b014 100644
--- a/src/shared/EulerEquations.h
+++ b/src/shared/EulerEquations.h
@@ -118,7 +118,7 @@ struct EulerEquations<2>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
@@ -515,7 +515,7 @@ struct EulerEquations<3>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(w[IP] * gamma0 / w[ID]);
 
   } // compute_speed_of_sound
 
-- 
2.43.0


From fd4d44fffa430a1287bc911abdcfb6e9ed12b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 15/34] fix: SDM viscous fluxes were computed from an unset
 array and never used

---
 src/sdm/SDM_Viscous_Flux_Functors.h | 1 +
 src/sdm/SolverHydroSDM.h            | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdm/SDM_Viscous_Flux_Functors.h b/src/sdm/SDM_Viscous_Flux_Functors.h
index 0b73d61..a59fd10 100644
--- a/src/sdm/SDM_Viscous_Flux_Functors.h
+++ b/src/sdm/SDM_Viscous_Flux_Functors.h
@@ -84,6 +84,7 @@ public:
                                          DataArray                   UdataFlux)
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , euler(euler)
+    , FUgrad(FUgrad)
     , UdataFlux(UdataFlux){};
 
   // ================================================
diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 74a1334..730f865 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1176,7 +1176,7 @@ SolverHydroSDM<dim, N>::compute_viscous_fluxes_divergence_per_dir(DataArray Udat
   // 5.2 Finally compute derivative and accumulate (with negative sign) in Udata_fdiv
   {
     Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_DERIVATIVE_NEGATIVE> functor(
-      params, sdm_geom, FUgrad, Udata_fdiv);
+      params, sdm_geom, Fluxes, Udata_fdiv);
     Kokkos::parallel_for(nbCells, functor);
   }
 
-- 
2.43.0


From 80505f0f4461083802fec9ec1a12ca7122edca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 16/34] fix: SDM velocity gradients were accumulated over the
 steps

---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index e35f2a0..579b06b 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -775,7 +775,7 @@ public:
 
           // copy back interpolated value
           for (int idy = 0; idy < N; ++idy)
-            UdataSol(i, j, dofMapS(idx, idy, 0, index_var)) += sol[idy];
+            UdataSol(i, j, dofMapS(idx, idy, 0, index_var)) = sol[idy];
 
         } // end for ivar
 
@@ -843,7 +843,7 @@ public:
 
             // copy back interpolated value
             for (int idx = 0; idx < N; ++idx)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idx];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idx];
 
           } // end for ivar
 
@@ -879,7 +879,7 @@ public:
 
             // copy back interpolated value
             for (int idy = 0; idy < N; ++idy)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idy];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idy];
 
           } // end for ivar
 
@@ -915,7 +915,7 @@ public:
 
             // copy back interpolated value
             for (int idz = 0; idz < N; ++idz)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idz];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idz];
 
           } // end for ivar
 
-- 
2.43.0


From ee24bf9b99e49971209e024e2217c3c1692b457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 17/34] fix: SDM velocity gradients were divided by themselves
 when interpolated to the flux points

---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index 579b06b..186a85d 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -1055,9 +1055,7 @@ public:
           for (int idx = 0; idx < N; ++idx)
           {
 
-            // divide momentum by density to obtain velocity
-            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1102,8 +1100,7 @@ public:
           for (int idy = 0; idy < N; ++idy)
           {
 
-            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1175,8 +1172,7 @@ public:
             for (int idx = 0; idx < N; ++idx)
             {
 
-              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1225,8 +1221,7 @@ public:
             for (int idy = 0; idy < N; ++idy)
             {
 
-              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1275,8 +1270,7 @@ public:
             for (int idz = 0; idz < N; ++idz)
             {
 
-              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
-- 
2.43.0


From 30ef23da3f028f16cc6ab5585027ca559b004dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:48 +0000
Subject: [PATCH 18/34] fix: SDM viscous terms need two layers of ghost cells

---
 src/shared/HydroParams.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 0f9a0f5..8100cf0 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -77,7 +77,8 @@ HydroParams::setup(ConfigMap & configMap)
 
     dimType = TWO_D;
     nbvar = 4;
-    ghostWidth = 1;
+    // velocity gradients are also needed in the first layer of ghost cells
+    ghostWidth = configMap.getFloat("hydro", "mu", 0.0) > 0 ? 2 : 1;
 
 #endif // USE_SDM
   }
@@ -89,7 +90,8 @@ HydroParams::setup(ConfigMap & configMap)
 
     dimType = THREE_D;
     nbvar = 5;
-    ghostWidth = 1;
+    // velocity gradients are also needed in the first layer of ghost cells
+    ghostWidth = configMap.getFloat("hydro", "mu", 0.0) > 0 ? 2 : 1;
 
 #endif // USE_SDM
   }
-- 
2.43.0


From c3c0d43197efbc9196338b44aee6f70cda408480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:32 +0000
Subject: [PATCH 19/34] fix: SDM four quadrant initial condition was shifted by
 half a cell

---
 src/sdm/init/InitFourQuadrantFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdm/init/InitFourQuadrantFunctor.h b/src/sdm/init/InitFourQuadrantFunctor.h
index 0c60cf9..24339c9 100644
--- a/src/sdm/init/InitFourQuadrantFunctor.h
+++ b/src/sdm/init/InitFourQuadrantFunctor.h
@@ -107,8 +107,8 @@ public:
       {
 
         // lower left corner
-        real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-        real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
+        real_t x = xmin + (i + nx * i_mpi - ghostWidth) * dx;
+        real_t y = ymin + (j + ny * j_mpi - ghostWidth) * dy;
 
         // Dof location in real space
         x += this->sdm_geom.solution_pts_1d(idx) * dx;
-- 
2.43.0


From e559b928fe2e1bc12caf9edd674e3fc4053c7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:32 +0000
Subject: [PATCH 20/34] fix: 3D SDM four quadrant initial condition left the
 state unset

---
 src/sdm/init/InitFourQuadrantFunctor.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sdm/init/InitFourQuadrantFunctor.h b/src/sdm/init/InitFourQuadrantFunctor.h
index 24339c9..b98ea70 100644
--- a/src/sdm/init/InitFourQuadrantFunctor.h
+++ b/src/sdm/init/InitFourQuadrantFunctor.h
@@ -215,6 +215,15 @@ public:
           y += this->sdm_geom.solution_pts_1d(idy) * dy;
           z += this->sdm_geom.solution_pts_1d(idz) * dz;
 
+          // the quadrants do not depend on z
+          const HydroState2d & Uq = (x < xt) ? ((y < yt) ? U2 : U1) : ((y < yt) ? U3 : U0);
+
+          Udata(i, j, k, dofMap(idx, idy, idz, ID)) = Uq[ID];
+          Udata(i, j, k, dofMap(idx, idy, idz, IE)) = Uq[IE];
+          Udata(i, j, k, dofMap(idx, idy, idz, IU)) = Uq[IU];
+          Udata(i, j, k, dofMap(idx, idy, idz, IV)) = Uq[IV];
+          Udata(i, j, k, dofMap(idx, idy, idz, IW)) = 0.0;
+
         } // end for idx
       } // end for idy
     } // end for idz
-- 
2.43.0


From 4dac6a19743a2442165820c29fa00d554555e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:32 +0000
Subject: [PATCH 21/34] fix: 3D Gresho vortex was given a spurious velocity
 along z

---
 src/muscl/HydroInitFunctors3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 6928b2c..3924d60 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -521,7 +521,7 @@ public:
     Udata(i, j, k, ID) = rho0;
     Udata(i, j, k, IU) = rho0 * (-sinT * uphi);
     Udata(i, j, k, IV) = rho0 * (cosT * uphi);
-    Udata(i, j, k, IW) = rho0 * (cosT * uphi);
+    Udata(i, j, k, IW) = 0.0;
     Udata(i, j, k, IP) = p / (gamma0 - 1.0) + 0.5 *
                                                 (Udata(i, j, k, IU) * Udata(i, j, k, IU) +
                                                  Udata(i, j, k, IV) * Udata(i, j, k, IV) +
-- 
2.43.0


From a2ffd59c4a2f1f72605776f29067b051176d45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:43 +0000
Subject: [PATCH 22/34] fix: SDM velocities and gradients other than vx were
 not averaged at cell borders

---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index 186a85d..7c13d44 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -384,7 +384,7 @@ public:
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , UdataFlux(UdataFlux)
     , nbvar(nbvar)
-    , var_index(){};
+    , var_index(var_index){};
 
   // static method which does it all: create and execute functor
   static void
-- 
2.43.0


From 171bc883873ec0252d2f86d826c2390f0da30825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:38 +0000
Subject: [PATCH 23/34] fix: 3D hydro implementation 1 applied the gravity
 predictor only on one side of z faces

---
 src/muscl/HydroRunFunctors3D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index 5d59a9e..c28c195 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1346,6 +1346,16 @@ public:
         // left interface : right state
         trace_unsplit_3d_along_dir(qLoc, dqX, dqY, dqZ, dtdx, dtdy, dtdz, FACE_ZMIN, qright);
 
+        if (gravity_enabled)
+        {
+          // we need to modify input to flux computation with
+          // gravity predictor (half time step)
+
+          qright[IU] += 0.5 * dt * gravity(i, j, k, IX);
+          qright[IV] += 0.5 * dt * gravity(i, j, k, IY);
+          qright[IW] += 0.5 * dt * gravity(i, j, k, IZ);
+        }
+
         qLocNeighbor[ID] = Qdata(i, j, k - 1, ID);
         dqX_neighbor[ID] = Slopes_x(i, j, k - 1, ID);
         dqY_neighbor[ID] = Slopes_y(i, j, k - 1, ID);
-- 
2.43.0


From 7ebf7aa86e485bccc76815d201302f9a27baa771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 24/34] fix: settings read in several places fall back to one
 default value

A parameter file without hydro/gamma0, mesh/[xyz]min|max or run/tEnd gave the
problem setups (jet, wave, disk, isentropic vortex) another value than the one
the solver runs with.
---
 src/shared/SolverBase.cpp                    |  2 +-
 src/shared/problems/DiskParams.h             | 12 ++++++------
 src/shared/problems/IsentropicVortexParams.h |  2 +-
 src/shared/problems/JetParams.h              |  2 +-
 src/shared/problems/WaveParams.h             |  8 ++++----
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/shared/SolverBase.cpp b/src/shared/SolverBase.cpp
index c54d9d9..aa99807 100644
--- a/src/shared/SolverBase.cpp
+++ b/src/shared/SolverBase.cpp
@@ -119,7 +119,7 @@ SolverBase::read_config()
   m_t = configMap.getFloat("run", "tCurrent", 0.0);
   m_tEnd = configMap.getFloat("run", "tEnd", 0.0);
   m_dt = m_tEnd;
-  m_cfl = configMap.getFloat("hydro", "cfl", 1.0);
+  m_cfl = configMap.getFloat("hydro", "cfl", 0.5);
   m_nlog = configMap.getFloat("run", "nlog", 10);
   m_iteration = 0;
 
diff --git a/src/shared/problems/DiskParams.h b/src/shared/problems/DiskParams.h
index caac2a6..317a165 100644
--- a/src/shared/problems/DiskParams.h
+++ b/src/shared/problems/DiskParams.h
@@ -38,13 +38,13 @@ struct DiskParams
   DiskParams(ConfigMap & configMap)
   {
 
-    double xmin = configMap.getFloat("mesh", "xmin", -0.5);
-    double ymin = configMap.getFloat("mesh", "ymin", -0.5);
-    double zmin = configMap.getFloat("mesh", "zmin", -0.5);
+    double xmin = configMap.getFloat("mesh", "xmin", 0.0);
+    double ymin = configMap.getFloat("mesh", "ymin", 0.0);
+    double zmin = configMap.getFloat("mesh", "zmin", 0.0);
 
-    double xmax = configMap.getFloat("mesh", "xmax", 0.5);
-    double ymax = configMap.getFloat("mesh", "ymax", 0.5);
-    double zmax = configMap.getFloat("mesh", "zmax", 0.5);
+    double xmax = configMap.getFloat("mesh", "xmax", 1.0);
+    double ymax = configMap.getFloat("mesh", "ymax", 1.0);
+    double zmax = configMap.getFloat("mesh", "zmax", 1.0);
 
     radius = configMap.getFloat("disk", "radius", (xmax - xmin) * 0.125);
     radius_inner = configMap.getFloat("disk", "radius_inner", radius / 10);
diff --git a/src/shared/problems/IsentropicVortexParams.h b/src/shared/problems/IsentropicVortexParams.h
index 5cec1c4..bb67c98 100644
--- a/src/shared/problems/IsentropicVortexParams.h
+++ b/src/shared/problems/IsentropicVortexParams.h
@@ -63,7 +63,7 @@ struct IsentropicVortexParams
 
     // default value is false, meaning we compute the initial value (t=0)
     use_tEnd = configMap.getBool("isentropic_vortex", "use_tEnd", false);
-    tEnd = configMap.getFloat("run", "tEnd", 1.0);
+    tEnd = configMap.getFloat("run", "tEnd", 0.0);
   }
 
 }; // struct IsentropicVortexParams
diff --git a/src/shared/problems/JetParams.h b/src/shared/problems/JetParams.h
index bc0d809..fc8ad97 100644
--- a/src/shared/problems/JetParams.h
+++ b/src/shared/problems/JetParams.h
@@ -51,7 +51,7 @@ struct JetParams
 
   JetParams(ConfigMap & configMap)
   {
-    real_t gamma0 = configMap.getFloat("hydro", "gamma0", 5.0 / 3.0);
+    real_t gamma0 = configMap.getFloat("hydro", "gamma0", 1.4);
 
     // read jet parameters
     rho_jet = configMap.getFloat("jet", "rho_jet", 5.0);
diff --git a/src/shared/problems/WaveParams.h b/src/shared/problems/WaveParams.h
index 60e98a9..63e954b 100644
--- a/src/shared/problems/WaveParams.h
+++ b/src/shared/problems/WaveParams.h
@@ -34,15 +34,15 @@ struct WaveParams
     double ymin = configMap.getFloat("mesh", "ymin", 0.0);
     double zmin = configMap.getFloat("mesh", "zmin", 0.0);
 
-    double xmax = configMap.getFloat("mesh", "xmax", 3.0);
-    double ymax = configMap.getFloat("mesh", "ymax", 1.5);
-    double zmax = configMap.getFloat("mesh", "zmax", 1.5);
+    double xmax = configMap.getFloat("mesh", "xmax", 1.0);
+    double ymax = configMap.getFloat("mesh", "ymax", 1.0);
+    double zmax = configMap.getFloat("mesh", "zmax", 1.0);
 
     double Lx = xmax - xmin;
     double Ly = ymax - ymin;
     double Lz = zmax - zmin;
 
-    double gamma0 = configMap.getFloat("hydro", "gamma0", 1.66667);
+    double gamma0 = configMap.getFloat("hydro", "gamma0", 1.4);
 
     wave_amplitude = configMap.getFloat("wave", "amplitude", 1.0e-6);
     wave_type = configMap.getInteger("wave", "type", 0);
-- 
2.43.0


From ae364abe699d352c1baa61fbb138e3690527b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:31 +0000
Subject: [PATCH 25/34] fix: a restarted hydro run sets its gravity field

The gravity field is not part of the restart file and was left at zero, so a
restarted run with static or point gravity continued without gravity.
---
 src/muscl/SolverHydroMuscl.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/muscl/SolverHydroMuscl.cpp b/src/muscl/SolverHydroMuscl.cpp
index 39d5b92..56c38b3 100644
--- a/src/muscl/SolverHydroMuscl.cpp
+++ b/src/muscl/SolverHydroMuscl.cpp
@@ -111,7 +111,7 @@ SolverHydroMuscl<2>::init(DataArray Udata)
   // test if we are performing a re-start run (default : false)
   bool restartEnabled = configMap.getBool("run", "restart_enabled", false);
 
-  if (restartEnabled)
+  if (restartEnabled and !m_gravity_enabled)
   { // load data from input data file
 
     init_restart(Udata);
@@ -176,6 +176,10 @@ SolverHydroMuscl<2>::init(DataArray Udata)
       init_implode(Udata);
     }
 
+    // the gravity field set above is not stored in the restart file
+    if (restartEnabled)
+      init_restart(Udata);
+
   } // end regular initialization
 
 } // SolverHydroMuscl::init / 2d
@@ -190,7 +194,7 @@ SolverHydroMuscl<3>::init(DataArray Udata)
   // test if we are performing a re-start run (default : false)
   bool restartEnabled = configMap.getBool("run", "restart_enabled", false);
 
-  if (restartEnabled)
+  if (restartEnabled and !m_gravity_enabled)
   { // load data from input data file
 
     init_restart(Udata);
@@ -245,6 +249,10 @@ SolverHydroMuscl<3>::init(DataArray Udata)
       init_implode(Udata);
     }
 
+    // the gravity field set above is not stored in the restart file
+    if (restartEnabled)
+      init_restart(Udata);
+
   } // end regular initialization
 
 } // SolverHydroMuscl<3>::init
-- 
2.43.0


From bc995445a56a0758593bffd2ea61045ff831d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:29 +0000
Subject: [PATCH 26/34] fix: pvti header, the 2D pieces have the z extent of
 the files they refer to

---
 src/utils/io/IO_VTK.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index c8b0a73..545f34b 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -959,7 +959,7 @@ write_pvti_header(std::string                        headerFilename,
         outHeader << 0 << " " << ny << " ";
       else
         outHeader << coords[1] * ny << " " << coords[1] * ny + ny << " ";
-      outHeader << 0 << " " << 1 << "\" Source=\"";
+      outHeader << 0 << " " << 0 << "\" Source=\"";
       outHeader << pieceFilename << "\"/>" << std::endl;
     }
   }
-- 
2.43.0


From 1365366b0f0d00fab018abf1fc939bda7a481f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:34 +0000
Subject: [PATCH 27/34] fix: parallel HDF5 output with external ghosts, inner
 cells are not overwritten by neighbors' ghost cells

---
 src/utils/io/IO_HDF5.h | 52 ++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index bdaf688..680eaff 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -973,6 +973,20 @@ public:
 
     } // end reassembleInFile is true
 
+    // when only external ghost zones are saved, do not write the ghost cells shared with a neighbor
+    // sub-domain (the neighbor is the one who writes them, as inner cells)
+    hsize_t skipLow[3] = { 0, 0, 0 };
+    hsize_t skipHigh[3] = { 0, 0, 0 };
+    if (reassembleInFile and ghostIncluded and !allghostIncluded)
+    {
+      const int mpiSizes[3] = { mx, my, mz };
+      for (int idim = 0; idim < (dimType == TWO_D ? 2 : 3); ++idim)
+      {
+        skipLow[idim] = coords[idim] > 0 ? ghostWidth : 0;
+        skipHigh[idim] = coords[idim] < mpiSizes[idim] - 1 ? ghostWidth : 0;
+      }
+    }
+
     /*
      * Memory space hyperslab :
      * select data with or without ghost zones
@@ -982,21 +996,23 @@ public:
 
       if (dimType == TWO_D)
       {
-        hsize_t start[2] = { 0, 0 }; // no start offset
+        hsize_t start[2] = { skipLow[1], skipLow[0] };
         hsize_t stride[2] = { 1, 1 };
         hsize_t count[2] = { 1, 1 };
-        hsize_t block[2] = { dims_chunk[0],
-                             dims_chunk[1] }; // row-major instead of column-major here
+        hsize_t block[2] = { dims_chunk[0] - skipLow[1] - skipHigh[1],
+                             dims_chunk[1] - skipLow[0] -
+                               skipHigh[0] }; // row-major instead of column-major here
         status = H5Sselect_hyperslab(dataspace_memory, H5S_SELECT_SET, start, stride, count, block);
       }
       else
       {
-        hsize_t start[3] = { 0, 0, 0 }; // no start offset
+        hsize_t start[3] = { skipLow[2], skipLow[1], skipLow[0] };
         hsize_t stride[3] = { 1, 1, 1 };
         hsize_t count[3] = { 1, 1, 1 };
-        hsize_t block[3] = { dims_chunk[0],
-                             dims_chunk[1],
-                             dims_chunk[2] }; // row-major instead of column-major here
+        hsize_t block[3] = { dims_chunk[0] - skipLow[2] - skipHigh[2],
+                             dims_chunk[1] - skipLow[1] - skipHigh[1],
+                             dims_chunk[2] - skipLow[0] -
+                               skipHigh[0] }; // row-major instead of column-major here
         status = H5Sselect_hyperslab(dataspace_memory, H5S_SELECT_SET, start, stride, count, block);
       }
     }
@@ -1104,31 +1120,33 @@ public:
 
         if (dimType == TWO_D)
         {
-          gOffsetStartY = coords[1] * ny;
-          gOffsetStartX = coords[0] * nx;
+          gOffsetStartY = coords[1] * ny + skipLow[1];
+          gOffsetStartX = coords[0] * nx + skipLow[0];
 
           hsize_t start[2] = { (hsize_t)gOffsetStartY, (hsize_t)gOffsetStartX };
           hsize_t stride[2] = { 1, 1 };
           hsize_t count[2] = { 1, 1 };
-          hsize_t block[2] = { dims_chunk[0],
-                               dims_chunk[1] }; // row-major instead of column-major here
+          hsize_t block[2] = { dims_chunk[0] - skipLow[1] - skipHigh[1],
+                               dims_chunk[1] - skipLow[0] -
+                                 skipHigh[0] }; // row-major instead of column-major here
           status = H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start, stride, count, block);
         }
         else
         { // THREE_D
 
-          gOffsetStartZ = coords[2] * nz;
-          gOffsetStartY = coords[1] * ny;
-          gOffsetStartX = coords[0] * nx;
+          gOffsetStartZ = coords[2] * nz + skipLow[2];
+          gOffsetStartY = coords[1] * ny + skipLow[1];
+          gOffsetStartX = coords[0] * nx + skipLow[0];
 
           hsize_t start[3] = { (hsize_t)gOffsetStartZ,
                                (hsize_t)gOffsetStartY,
                                (hsize_t)gOffsetStartX };
           hsize_t stride[3] = { 1, 1, 1 };
           hsize_t count[3] = { 1, 1, 1 };
-          hsize_t block[3] = { dims_chunk[0],
-                               dims_chunk[1],
-                               dims_chunk[2] }; // row-major instead of column-major here
+          hsize_t block[3] = { dims_chunk[0] - skipLow[2] - skipHigh[2],
+                               dims_chunk[1] - skipLow[1] - skipHigh[1],
+                               dims_chunk[2] - skipLow[0] -
+                                 skipHigh[0] }; // row-major instead of column-major here
           status = H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start, stride, count, block);
         }
       }
-- 
2.43.0


From 7c714763485845fd6d9f4d9f5a1471623955236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 28/34] fix: disk: kinetic energy consistent with the momenta
 where omega2 is negative

---
 src/muscl/HydroInitFunctors2D.h | 2 +-
 src/muscl/HydroInitFunctors3D.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index caf3db9..bb0234f 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1055,7 +1055,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 3924d60..a39f192 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -963,7 +963,7 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega * omega * (r2 + eps * eps);
     }
 
   } // end operator ()
-- 
2.43.0


From 2019af79ce9b8af43448c3cde05532b4b066801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 29/34] fix: four quadrant configuration 6: pressure of the
 second quadrant

---
 src/shared/problems/initRiemannConfig2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index f780abc..e00e09c 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -174,7 +174,7 @@ getRiemannConfig2d(int            numConfig,
       U1[ID] = 2.0;
       U1[IU] = 0.75;
       U1[IV] = 0.5;
-      U1[IP] = 0.5;
+      U1[IP] = 1.0;
 
       U2[ID] = 1.0;
       U2[IU] = -0.75;
-- 
2.43.0


From 61ff7d10c8f47252e40df44ff53ee05b43926d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 30/34] fix: four quadrant configuration 10: velocity of the
 fourth quadrant

---
 src/shared/problems/initRiemannConfig2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index e00e09c..400d524 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -275,7 +275,7 @@ getRiemannConfig2d(int            numConfig,
 
       U3[ID] = 0.4562;
       U3[IU] = 0.0;
-      U3[IV] = -0.4259;
+      U3[IV] = -0.4297;
       U3[IP] = 0.3333;
 
       break;
-- 
2.43.0


From ace112718ab3e0c8c26d94ac5bfff38b7f5b66b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 31/34] fix: four quadrant configuration 19 fell through to
 configuration 1

---
 src/shared/problems/initRiemannConfig2d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index 400d524..d1ba5f5 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -485,6 +485,8 @@ getRiemannConfig2d(int            numConfig,
       U3[IV] = -0.4259;
       U3[IP] = 0.4;
 
+      break;
+
     default:
       // Config 1
       U0[ID] = 1.0;
-- 
2.43.0


From 2dfce5c94631d7fdac43628299b88633d38c1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 32/34] fix: 2D MHD rotor: the core rotates at uniform angular
 velocity u0/r0

---
 src/muscl/MHDInitFunctors2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index c5ee5d7..44174d3 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -652,8 +652,8 @@ public:
     if (r <= r0)
     {
       Udata(i, j, ID) = 10.0;
-      Udata(i, j, IU) = -Udata(i, j, ID) * f_r * u0 * (y - yCenter) / r0;
-      Udata(i, j, IV) = Udata(i, j, ID) * f_r * u0 * (x - xCenter) / r0;
+      Udata(i, j, IU) = -Udata(i, j, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, IV) = Udata(i, j, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
-- 
2.43.0


From 21638c3c402d53fa80a286b5bef5dd56edac80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:51 +0000
Subject: [PATCH 33/34] fix: 3D MHD rotor: momenta include the density

---
 src/muscl/MHDInitFunctors3D.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 8c2e69b..b434c94 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -696,14 +696,14 @@ public:
     if (r <= r0)
     {
       Udata(i, j, k, ID) = 10.0;
-      Udata(i, j, k, IU) = -u0 * (y - yCenter) / r0;
-      Udata(i, j, k, IV) = u0 * (x - xCenter) / r0;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
       Udata(i, j, k, ID) = 1 + 9 * f_r;
-      Udata(i, j, k, IU) = -f_r * u0 * (y - yCenter) / r;
-      Udata(i, j, k, IV) = f_r * u0 * (x - xCenter) / r;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * f_r * u0 * (y - yCenter) / r;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * f_r * u0 * (x - xCenter) / r;
     }
     else
     {
-- 
2.43.0


From c15b62a24444fb55cd994c7433ab5c103bc547df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:08 +0000
Subject: [PATCH 34/34] fix: 3D MHD Kelvin-Helmholtz with a random
 perturbation: magnetic field was not initialised

---
 src/muscl/MHDInitFunctors3D.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index b434c94..2c99a76 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -518,11 +518,21 @@ public:
       v += ampl * (rand_gen.drand() - 0.5);
       w += ampl * (rand_gen.drand() - 0.5);
 
+      const real_t bx = 0.5;
+      const real_t by = 0.0;
+      const real_t bz = 0.0;
+
       Udata(i, j, k, ID) = d;
       Udata(i, j, k, IU) = d * u;
       Udata(i, j, k, IV) = d * v;
       Udata(i, j, k, IW) = d * w;
-      Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+
+      Udata(i, j, k, IBX) = bx;
+      Udata(i, j, k, IBY) = by;
+      Udata(i, j, k, IBZ) = bz;
+
+      Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w) +
+                           0.5 * (bx * bx + by * by + bz * bz);
 
       // free random number
       rand_pool.free_state(rand_gen);
-- 
2.43.0

