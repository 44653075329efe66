From ed7b101a80dc18e611686820dcd52944487d5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:14 +0000
Subject: [PATCH 1/6] fix: f-wave solver: use the given gravity constant for
 the wave speeds

nusN used its gravity argument for the flux jump, but not for the Einfeldt speeds.
---
 src/impl/swe/solvers/Fwave.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/Fwave.hpp b/src/impl/swe/solvers/Fwave.hpp
index 6597f67..3a215d8 100644
--- a/src/impl/swe/solvers/Fwave.hpp
+++ b/src/impl/swe/solvers/Fwave.hpp
@@ -222,7 +222,8 @@ class edge::swe::solvers::Fwave {
       // compute eigenvalues
       evs( i_hL,   i_hR,
            l_uL,   l_uR,
-           l_lam );
+           l_lam,
+           i_g );
 
       // compute jumps in fluxes
       for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) {
-- 
2.43.0


From 518726cf7af44f78b0bee6a16ff0885263eed08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:42 +0000
Subject: [PATCH 2/6] fix: 2D linear slip weakening: traction acts in direction
 of the total shear stress

The sign of the traction of a failing fault was taken from the background shear
stress only, which reverses the traction if the total shear stress has the opposite
sign (or if there is no background shear stress). The 3D law uses the total stress.
---
 src/impl/seismic/solvers/FrictionLaws.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impl/seismic/solvers/FrictionLaws.hpp b/src/impl/seismic/solvers/FrictionLaws.hpp
index 01ecfff..c37addc 100644
--- a/src/impl/seismic/solvers/FrictionLaws.hpp
+++ b/src/impl/seismic/solvers/FrictionLaws.hpp
@@ -141,9 +141,9 @@ class edge::seismic::solvers::FrictionLaws< 2, TL_N_CRUNS > {
 
       // perturb middle states and update friction coefficient
       for( unsigned short l_ru = 0; l_ru < TL_N_CRUNS; l_ru++ ) {
-        // compute traction
-        o_tr[l_ru] = o_st[l_ru] - std::abs(i_ss0[l_ru]);
-        o_tr[l_ru] = (i_ss0[l_ru] > 0) ? o_tr[l_ru] : -o_tr[l_ru];
+        // compute traction: limited by the strength, acting in direction of the total shear stress
+        TL_T_REAL l_shear = i_ss0[l_ru] + i_ms[2][l_ru];
+        o_tr[l_ru] = (l_shear > 0) ? o_st[l_ru] - i_ss0[l_ru] : -o_st[l_ru] - i_ss0[l_ru];
 
         // fall back to middle state if the fault is locked
         o_tr[l_ru] = (o_per[l_ru]) ? o_tr[l_ru] : i_ms[2][l_ru];
-- 
2.43.0


From a86f697f8b8d6248886579f4fc94888d4fc1b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:55 +0000
Subject: [PATCH 3/6] fix: shallow water time step: consider the momentum in
 all directions

---
 src/impl/swe/solvers/FiniteVolume.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/FiniteVolume.hpp b/src/impl/swe/solvers/FiniteVolume.hpp
index 08afea7..d37726c 100644
--- a/src/impl/swe/solvers/FiniteVolume.hpp
+++ b/src/impl/swe/solvers/FiniteVolume.hpp
@@ -193,8 +193,15 @@ class edge::swe::solvers::FiniteVolume {
         // compute minum CFL associated time step for all concurrent runs
         double l_cDt = std::numeric_limits< double >::max();
         for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ ) {
+          // absolute momentum, considering all directions
+          double l_hu = 0;
+          for( unsigned short l_di = 0; l_di < TL_N_DIS; l_di++ ) {
+            l_hu += double(i_dofs[l_el][1+l_di][0][l_ru]) * i_dofs[l_el][1+l_di][0][l_ru];
+          }
+          l_hu = std::sqrt( l_hu );
+
           l_cDt = std::min( l_cDt, computeCflTimeStep( i_dofs[l_el][0][0][l_ru],
-                                                       i_dofs[l_el][1][0][l_ru],
+                                                       l_hu,
                                                        i_charsEl[l_el].inDia ) );
         }
 
-- 
2.43.0


From 0caac139ee3e0687d93c414cf3c312220e305ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:27 +0000
Subject: [PATCH 4/6] fix: centroid of the mesh entities: initialize the output

---
 tools/edge_v/src/geom/Generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..da78a41 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,10 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
+    o_cen[l_di] = 0;
+  }
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From b79f04c7cbbf7c8ae98b063f5428e86a42b0dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:23 +0000
Subject: [PATCH 5/6] fix: time series integration when both bounds lie in the
 same interval

---
 src/linalg/Series.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..d8d58cf 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,8 +74,7 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
-
+                  l_first = std::min( l_first, i_nPts-1 );
 
       // add contribution of the covered intervals
       for( std::size_t l_pt = l_first+1; l_pt < l_last+1; l_pt++ ) {
@@ -87,6 +86,13 @@ class edge::linalg::Series {
         }
       }
 
+      // x1 and x2 in the same interval: the contributions before and after exceed [x1, x2] by this interval
+      for( std::size_t l_pt = l_last+1; l_pt < l_first+1; l_pt++ ) {
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ ) {
+          o_int[l_se] -= l_dxH*( i_vals[l_pt][l_se] + i_vals[l_pt-1][l_se] );
+        }
+      }
+
       // determine the case we are in
       // false: x1/x2 is outside the defined series
       // true:  x1/x2 it outside the defined series
-- 
2.43.0


From e90540c7ebf6db385c6c9ab60e3aa4e79778019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 6/6] fix: evaluate all modes of the time prediction in
 viscoelastic runs

The source terms of the viscoelastic equations add contributions to all
modes of the time derivatives. TimePred::evalTimePrediction (receivers)
only considered the modes of purely elastic derivatives.
---
 src/impl/seismic/kernels/TimePred.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/impl/seismic/kernels/TimePred.hpp b/src/impl/seismic/kernels/TimePred.hpp
index f0b3d04..3e5ef17 100644
--- a/src/impl/seismic/kernels/TimePred.hpp
+++ b/src/impl/seismic/kernels/TimePred.hpp
@@ -145,8 +145,11 @@ class edge::seismic::kernels::TimePred {
           // update scalar
           l_scalar *= i_pts[l_pt] / l_de;
 
+          // the source terms of the viscoelastic equations contribute to all modes of the derivatives
+          unsigned short l_nCpMds = (TL_N_RMS == 0) ? CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ) : TL_N_MDS;
+
           for( unsigned short l_qt = 0; l_qt < TL_N_QTS_E; l_qt++ ) {
-            for( unsigned short l_md = 0; l_md < CE_N_ELEMENT_MODES_CK( TL_T_EL, TL_O_SP, l_de ); l_md++ ) {
+            for( unsigned short l_md = 0; l_md < l_nCpMds; l_md++ ) {
               for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ )
                 o_preDofs[l_pt][l_qt][l_md][l_ru] += l_scalar * i_der[l_de][l_qt][l_md][l_ru];
             }
-- 
2.43.0

