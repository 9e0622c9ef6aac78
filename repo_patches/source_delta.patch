From 0b4163661c8e6901e706fff81a59f406c1563609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 01/12] fix: polar source term of the azimuthal velocity in
 spherical geometry

The source is cot(theta) rho u_phi^2 / r. The difference of the theta-face
areas divided by the cell volume is already the cell average of cot(theta)/r
(as used by the pressure term), so the extra factor cot(theta)/2 was wrong.
---
 src/hydro/extrapolation_reconstruction.hpp | 4 ----
 src/hydro/godunov_scheme.hpp               | 2 --
 src/hydro/source_terms.hpp                 | 5 ++---
 3 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/hydro/extrapolation_reconstruction.hpp b/src/hydro/extrapolation_reconstruction.hpp
index 5de8662..665e8ac 100644
--- a/src/hydro/extrapolation_reconstruction.hpp
+++ b/src/hydro/extrapolation_reconstruction.hpp
@@ -253,8 +253,6 @@ public:
                                         // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                         rhou_rec(i, j, k, 0, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
@@ -263,8 +261,6 @@ public:
                                                 ds(i_p, j_p, k_p, idim));
                                         rhou_rec(i, j, k, 1, ipos, idim) += source_grad_u_th(
                                                 dtodv,
-                                                x1(j),
-                                                x1(j + 1),
                                                 primL.rho,
                                                 primR.rho,
                                                 primL.u[2],
diff --git a/src/hydro/godunov_scheme.hpp b/src/hydro/godunov_scheme.hpp
index 881ba76..f3986e2 100644
--- a/src/hydro/godunov_scheme.hpp
+++ b/src/hydro/godunov_scheme.hpp
@@ -229,8 +229,6 @@ public:
                                     // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
                                     rhou_new(i, j, k, idim) += source_grad_u_th(
                                             dtodv,
-                                            x1(j),
-                                            x1(j + 1),
                                             primL.rho,
                                             primR.rho,
                                             primL.u[2],
diff --git a/src/hydro/source_terms.hpp b/src/hydro/source_terms.hpp
index 1f90d87..39211af 100644
--- a/src/hydro/source_terms.hpp
+++ b/src/hydro/source_terms.hpp
@@ -50,10 +50,9 @@ auto source_grad_u_idir_r(
 
 // Velocity term (e_{th}): cot(th) * rho * u_{phi} * u_{phi} / r
 KOKKOS_FORCEINLINE_FUNCTION
-auto source_grad_u_th(double dtodv, double x1, double x1_p, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
+auto source_grad_u_th(double dtodv, double rhoL, double rhoR, double uL_phi, double uR_phi, double dS, double dS_p) -> double
 {
-    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (Kokkos::cos((x1 + x1_p) / 2) / Kokkos::sin((x1 + x1_p) / 2))
-           * (dS_p - dS) / 2;
+    return dtodv * ((rhoL * uL_phi * uL_phi) + (rhoR * uR_phi * uR_phi)) / 2 * (dS_p - dS);
 }
 
 // Velocity term (e_{phi}): cot(th) * rho * u_{phi} * u_{th} / r
-- 
2.43.0


From 0aa5a0bf6c722d8f0193bc3ef23cf7b8e69a7c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 02/12] fix: area of the azimuthal faces of a spherical cell

The face at constant phi is an annular sector of area (r_p^2 - r^2) / 2 * dtheta;
the radius of the lower node was used instead of the mean radius.
---
 src/mesh/geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/geometry.cpp b/src/mesh/geometry.cpp
index 8685b8f..59e2bd0 100644
--- a/src/mesh/geometry.cpp
+++ b/src/mesh/geometry.cpp
@@ -62,7 +62,7 @@ void Spherical::execute(
         KV_cdouble_1d const& x0,
         KV_cdouble_1d const& x1,
         KV_cdouble_1d const& /*x2*/,
-        KV_cdouble_1d const& dx0,
+        KV_cdouble_1d const& /*dx0*/,
         KV_cdouble_1d const& dx1,
         KV_cdouble_1d const& dx2,
         KV_double_4d const& ds,
@@ -112,7 +112,7 @@ void Spherical::execute(
                     double const dcos = Kokkos::cos(x1(j)) - Kokkos::cos(x1(j + 1));
                     ds(i, j, k, 0) = x0(i) * x0(i) * dcos * dx2(k); //r = cst
                     ds(i, j, k, 1) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * Kokkos::sin(x1(j)) * dx2(k); // theta = cst
-                    ds(i, j, k, 2) = x0(i) * dx0(i) * dx1(j); //phi = cst
+                    ds(i, j, k, 2) = (1. / 2) * ((x0(i + 1) * x0(i + 1)) - (x0(i) * x0(i))) * dx1(j); //phi = cst
                 });
 
         Kokkos::parallel_for(
-- 
2.43.0


From 0a012f696226d17641555584c67e321ae401620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 03/12] fix: pressure fix adds the kinetic energy of the
 updated state

---
 src/hydro/pressure_fix.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index dd628a7..a1b67ac 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -157,14 +157,9 @@ void pressure_fix(
 
                             double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                            double sum = 0;
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                sum += cons.rhou[idr] * cons.rhou[idr] / cons.rho;
-                            }
-
                             double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + (1. / 2 * sum);
+                            E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
                         }
                     }
                 }
-- 
2.43.0


From dd89b87ddfe08f09979759644fac6f3fbbce7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 04/12] fix: pressure fix counts each face of a cell once, with
 its own velocity and area

---
 src/hydro/pressure_fix.hpp | 118 ++++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 60 deletions(-)

diff --git a/src/hydro/pressure_fix.hpp b/src/hydro/pressure_fix.hpp
index a1b67ac..7469e9b 100644
--- a/src/hydro/pressure_fix.hpp
+++ b/src/hydro/pressure_fix.hpp
@@ -82,85 +82,83 @@ void pressure_fix(
                         auto const [i_m, j_m, k_m] = lindex(idim, i, j, k); // i - 1
                         auto const [i_p, j_p, k_p] = rindex(idim, i, j, k); // i + 1
 
-                        for (int ipos = 0; ipos < ndim; ++ipos) {
-                            EulerCons var_L; // Left, front, down (i,j,k)
-                            EulerCons var_R; // Right, back, top (i,j,k)
+                        EulerCons var_L; // Left, front, down (i,j,k)
+                        EulerCons var_R; // Right, back, top (i,j,k)
 
-                            var_L.rho = rho_rec(i, j, k, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
-                            }
-                            var_L.E = E_rec(i, j, k, 0, idim);
+                        var_L.rho = rho_rec(i, j, k, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_L.rhou[idr] = rhou_rec(i, j, k, 0, idim, idr);
+                        }
+                        var_L.E = E_rec(i, j, k, 0, idim);
 
-                            var_R.rho = rho_rec(i, j, k, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
-                            }
-                            var_R.E = E_rec(i, j, k, 1, idim);
+                        var_R.rho = rho_rec(i, j, k, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            var_R.rhou[idr] = rhou_rec(i, j, k, 1, idim, idr);
+                        }
+                        var_R.E = E_rec(i, j, k, 1, idim);
 
-                            EulerPrim const primL = to_prim(var_L, eos);
-                            EulerPrim const primR = to_prim(var_R, eos);
+                        EulerPrim const primL = to_prim(var_L, eos);
+                        EulerPrim const primR = to_prim(var_R, eos);
 
-                            EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
-                            EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
+                        EulerCons minus_oneR; // Right, back, top (i,j,k) - 1
+                        EulerCons plus_oneL; // Left, front, down (i,j,k) + 1
 
-                            minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
-                            }
-                            minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
+                        minus_oneR.rho = rho_rec(i_m, j_m, k_m, 1, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            minus_oneR.rhou[idr] = rhou_rec(i_m, j_m, k_m, 1, idim, idr);
+                        }
+                        minus_oneR.E = E_rec(i_m, j_m, k_m, 1, idim);
 
-                            plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
-                            }
-                            plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
+                        plus_oneL.rho = rho_rec(i_p, j_p, k_p, 0, idim);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            plus_oneL.rhou[idr] = rhou_rec(i_p, j_p, k_p, 0, idim, idr);
+                        }
+                        plus_oneL.E = E_rec(i_p, j_p, k_p, 0, idim);
 
-                            EulerPrim const prim_mR = to_prim(minus_oneR, eos);
-                            EulerPrim const prim_pL = to_prim(plus_oneL, eos);
+                        EulerPrim const prim_mR = to_prim(minus_oneR, eos);
+                        EulerPrim const prim_pL = to_prim(plus_oneL, eos);
 
-                            EulerCons cons_p; // (i,j,k) + 1
-                            EulerCons cons_m; // (i,j,k) - 1
+                        EulerCons cons_p; // (i,j,k) + 1
+                        EulerCons cons_m; // (i,j,k) - 1
 
-                            cons_p.rho = rho(i_p, j_p, k_p);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
-                            }
-                            cons_p.E = E(i_p, j_p, k_p);
+                        cons_p.rho = rho(i_p, j_p, k_p);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_p.rhou[idr] = rhou(i_p, j_p, k_p, idr);
+                        }
+                        cons_p.E = E(i_p, j_p, k_p);
 
-                            cons_m.rho = rho(i_m, j_m, k_m);
-                            for (int idr = 0; idr < ndim; ++idr) {
-                                cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
-                            }
-                            cons_m.E = E(i_m, j_m, k_m);
+                        cons_m.rho = rho(i_m, j_m, k_m);
+                        for (int idr = 0; idr < ndim; ++idr) {
+                            cons_m.rhou[idr] = rhou(i_m, j_m, k_m, idr);
+                        }
+                        cons_m.E = E(i_m, j_m, k_m);
 
-                            //--------------------------------------------//
+                        //--------------------------------------------//
 
-                            double const us = (prim_mR.u[ipos] + primL.u[ipos]) / 2; // Not the values from the Riemann solver
-                            double const us_p = (primR.u[ipos] + prim_pL.u[ipos]) / 2;
+                        double const us = (prim_mR.u[idim] + primL.u[idim]) / 2; // Not the values from the Riemann solver
+                        double const us_p = (primR.u[idim] + prim_pL.u[idim]) / 2;
 
-                            divU += ((us_p * ds(i_p, j_p, k_p, ipos)) - (us * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divU += ((us_p * ds(i_p, j_p, k_p, idim)) - (us * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            if (us_p > 0) {
-                                einR = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
-                            }
+                        if (us_p > 0) {
+                            einR = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einR = E(i_p, j_p, k_p) - compute_ek(cons_p);
+                        }
 
-                            if (us < 0) {
-                                einL = E(i, j, k) - compute_ek(cons);
-                            } else {
-                                einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
-                            }
+                        if (us < 0) {
+                            einL = E(i, j, k) - compute_ek(cons);
+                        } else {
+                            einL = E(i_m, j_m, k_m) - compute_ek(cons_m);
+                        }
 
-                            divUE += ((us_p * einR * ds(i_p, j_p, k_p, ipos)) - (us * einL * ds(i, j, k, ipos))) / dv(i, j, k);
+                        divUE += ((us_p * einR * ds(i_p, j_p, k_p, idim)) - (us * einL * ds(i, j, k, idim))) / dv(i, j, k);
 
-                            double const de_pf = dt * ((-prim.P * divU) - divUE);
+                        double const de_pf = dt * ((-prim.P * divU) - divUE);
 
-                            double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
+                        double const de_tot = (alpha * de_god) + ((1 - alpha) * de_pf);
 
-                            E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
-                        }
+                        E_new(i, j, k) = evol + de_tot + compute_ek(cons_new);
                     }
                 }
             });
-- 
2.43.0


From f06accff0be53f3a135f44f693c04545e06b17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 05/12] fix: boundary priority list with a general order

---
 src/boundary_distribute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index 48de4d9..f418656 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -45,22 +45,22 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
     int counter = 0;
     for (int i = 0; i < nfaces; ++i) {
         if (tmp_arr[i] == "X_left") {
-            bc_order[0] = i;
+            bc_order[i] = 0;
             ++counter;
         } else if (tmp_arr[i] == "X_right") {
-            bc_order[1] = i;
+            bc_order[i] = 1;
             ++counter;
         } else if (tmp_arr[i] == "Y_left" && ndim >= 2) {
-            bc_order[2] = i;
+            bc_order[i] = 2;
             ++counter;
         } else if (tmp_arr[i] == "Y_right" && ndim >= 2) {
-            bc_order[3] = i;
+            bc_order[i] = 3;
             ++counter;
         } else if (tmp_arr[i] == "Z_left" && ndim == 3) {
-            bc_order[4] = i;
+            bc_order[i] = 4;
             ++counter;
         } else if (tmp_arr[i] == "Z_right" && ndim == 3) {
-            bc_order[5] = i;
+            bc_order[i] = 5;
             ++counter;
         }
     }
-- 
2.43.0


From a35af9abedb7b5acd1429be2fc921f6b4c483229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 06/12] fix: boundary priority list naming a face twice is
 refused

---
 src/boundary_distribute.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/boundary_distribute.cpp b/src/boundary_distribute.cpp
index f418656..bb1661d 100644
--- a/src/boundary_distribute.cpp
+++ b/src/boundary_distribute.cpp
@@ -65,7 +65,9 @@ void generate_order(std::array<int, nfaces>& bc_order, std::string const& bc_pri
         }
     }
     std::ranges::reverse(bc_order);
-    if (counter != nfaces) {
+    std::array<int, nfaces> all_faces;
+    std::iota(all_faces.begin(), all_faces.end(), 0);
+    if (counter != nfaces || !std::ranges::is_permutation(bc_order, all_faces)) {
         throw std::runtime_error("boundary priority not fully defined !");
     }
 }
-- 
2.43.0


From af09f68ec19dfedf508dbc868aa629d5f8572771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 07/12] fix: hexadecimal integers of the parameter file

---
 vendor/inih/src/INIReader.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/vendor/inih/src/INIReader.cpp b/vendor/inih/src/INIReader.cpp
index a6d51c6..66498cd 100644
--- a/vendor/inih/src/INIReader.cpp
+++ b/vendor/inih/src/INIReader.cpp
@@ -14,6 +14,17 @@
 #include <inih/ini.h>      // for ini_parse
 #include <inih/INIReader.hpp>
 
+namespace {
+
+// Base of an integer: 16 for hex "0x4d2", 10 otherwise (leading zeros do not mean octal)
+int IntegerBase(const std::string& str)
+{
+    const std::string::size_type pos = str.find_first_not_of("+-");
+    return pos != std::string::npos && (str.compare(pos, 2, "0x") == 0 || str.compare(pos, 2, "0X") == 0) ? 16 : 10;
+}
+
+} // namespace
+
 INIReader::INIReader() = default;
 
 INIReader::INIReader(const std::string& filename)
@@ -39,7 +50,7 @@ std::string INIReader::Get(const std::string& section, const std::string& name,
 unsigned INIReader::GetInteger(const std::string& section, const std::string& name, unsigned default_value) const
 {
     const std::string valstr = Get(section, name, "");
-    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr);
+    unsigned long result = valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
     if (result > std::numeric_limits<unsigned>::max())
     {
         throw std::out_of_range("stou");
@@ -51,35 +62,35 @@ unsigned long INIReader::GetInteger(const std::string& section, const std::strin
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoul(valstr);
+    return valstr.empty() ? default_value : std::stoul(valstr, nullptr, IntegerBase(valstr));
 }
 
 unsigned long long INIReader::GetInteger(const std::string& section, const std::string& name, unsigned long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoull(valstr);
+    return valstr.empty() ? default_value : std::stoull(valstr, nullptr, IntegerBase(valstr));
 }
 
 int INIReader::GetInteger(const std::string& section, const std::string& name, int default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoi(valstr);
+    return valstr.empty() ? default_value : std::stoi(valstr, nullptr, IntegerBase(valstr));
 }
 
 long INIReader::GetInteger(const std::string& section, const std::string& name, long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stol(valstr);
+    return valstr.empty() ? default_value : std::stol(valstr, nullptr, IntegerBase(valstr));
 }
 
 long long INIReader::GetInteger(const std::string& section, const std::string& name, long long default_value) const
 {
     const std::string valstr = Get(section, name, "");
     // This parses "1234" (decimal) and also "0x4D2" (hex)
-    return valstr.empty() ? default_value : std::stoll(valstr);
+    return valstr.empty() ? default_value : std::stoll(valstr, nullptr, IntegerBase(valstr));
 }
 
 float INIReader::GetReal(const std::string& section, const std::string& name, float default_value) const
-- 
2.43.0


From c79a9b30b0833372a6395ccb6344dc1bbb6750e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 08/12] fix: do not consume an output time that lies beyond the
 end time

The output counter was advanced for an output time after t_end although the
run ends before it; a run restarted from the last file with a later t_end
then skipped that output.
---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index b20af58..fc5cb79 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -364,7 +364,7 @@ void main(int argc, char** argv)
         }
         if (param.time_output_frequency > 0) {
             double const next_output = param.time_first_output + ((time_output_id + 1) * param.time_output_frequency);
-            if ((t + dt) >= next_output) {
+            if ((t + dt) >= next_output && next_output <= param.t_end) {
                 dt = next_output - t;
                 if (dt <= 0) {
                     throw std::runtime_error("Error: the time step is negative");
-- 
2.43.0


From 867c2206d3196691da7585947755c382b2e92c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 09/12] fix: report cells whose internal energy is not a number

The minimum reductions ignore NaN, so that the check of the main loop, which
looks for NaN, could never see one and the run went on.
---
 src/analysis/internal_energy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/analysis/internal_energy.cpp b/src/analysis/internal_energy.cpp
index b6eec69..0a50458 100644
--- a/src/analysis/internal_energy.cpp
+++ b/src/analysis/internal_energy.cpp
@@ -33,7 +33,11 @@ auto minimum_internal_energy(Range const& range, Grid const& grid, KV_cdouble_3d
                 }
                 cons.E = E(i, j, k);
 
-                double const cell_evol = compute_evol(cons);
+                double cell_evol = compute_evol(cons);
+                if (Kokkos::isnan(cell_evol)) {
+                    // comparisons ignore NaN, make sure it is not lost by the reductions
+                    cell_evol = -Kokkos::Experimental::infinity_v<double>;
+                }
 
                 local_evol = Kokkos::min(local_evol, cell_evol);
             },
-- 
2.43.0


From 35127d94ab35335ae2535cd391a33b705ef9600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 10/12] fix: passive scalar of the Rayleigh-Taylor problem goes
 from fx1 to fx0

---
 src/setups/rayleigh_taylor/setup.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/setups/rayleigh_taylor/setup.hpp b/src/setups/rayleigh_taylor/setup.hpp
index 03624b3..dc1b03b 100644
--- a/src/setups/rayleigh_taylor/setup.hpp
+++ b/src/setups/rayleigh_taylor/setup.hpp
@@ -85,7 +85,7 @@ public:
 
                     rho(i, j, k) = param_setup.rho1 + ((param_setup.rho0 - param_setup.rho1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
-                    fx(i, j, k, 0) = (param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width));
+                    fx(i, j, k, 0) = param_setup.fx1 + ((param_setup.fx0 - param_setup.fx1) / 2 * (1 + Kokkos::tanh((y - h) / width)));
 
                     u(i, j, k, 0) = param_setup.u;
                     u(i, j, k, 1) = param_setup.u;
-- 
2.43.0


From 98aabc0d9423990941004696ddcf56dbc33c00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 11/12] fix: Sedov 1D starts from the same state on any number
 of processes and ghost layers

---
 src/setups/sedov1d/setup.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/setups/sedov1d/setup.hpp b/src/setups/sedov1d/setup.hpp
index c96fcb3..b258417 100644
--- a/src/setups/sedov1d/setup.hpp
+++ b/src/setups/sedov1d/setup.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <mpi.h>
+
 #include <cassert>
 #include <string>
 
@@ -64,7 +66,8 @@ public:
         assert(u.extent_int(3) == ndim);
         assert(fx.extent_int(3) == 0);
 
-        int const mpi_rank = grid.mpi_rank;
+        bool const has_first_cell = grid.mpi_rank == 0;
+        int const i_first = grid.Nghost[0];
 
         double alpha = -1;
 
@@ -78,13 +81,18 @@ public:
 
         auto const& eos = m_eos;
         auto const& param_setup = m_param_setup;
-        auto const dv = grid.dv;
+
+        // Volume of the first cell of the whole mesh
+        double dv_beg = 0;
+        if (has_first_cell) {
+            Kokkos::deep_copy(dv_beg, Kokkos::subview(grid.dv, i_first, grid.Nghost[1], grid.Nghost[2]));
+        }
+        MPI_Bcast(&dv_beg, 1, MPI_DOUBLE, 0, grid.comm_cart);
 
         Kokkos::parallel_for(
                 "Sedov_1D_init",
                 cell_mdrange(range),
                 KOKKOS_LAMBDA(int i, int j, int k) {
-                    double const dv_beg = dv(2, 0, 0);
                     rho(i, j, k) = param_setup.rho0;
 
                     for (int idim = 0; idim < ndim; ++idim) {
@@ -94,7 +102,7 @@ public:
                     double const T = eos.compute_temp_from_evol(rho(i, j, k), param_setup.E0 / dv_beg);
                     P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T);
 
-                    if (mpi_rank == 0 && i == 2) {
+                    if (has_first_cell && i == i_first) {
                         double const T_perturb = eos.compute_temp_from_evol(rho(i, j, k), alpha * param_setup.E1 / dv_beg);
                         P(i, j, k) = eos.compute_pres_from_temp(rho(i, j, k), T_perturb);
                     }
-- 
2.43.0


From 512e706cec469a0781455716ec9e39553db16018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:46 +0000
Subject: [PATCH 12/12] fix: Sedov 3D explodes in the central cell of the whole
 mesh

---
 src/setups/sedov3d/setup.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/setups/sedov3d/setup.hpp b/src/setups/sedov3d/setup.hpp
index 3c7a225..4c14ce6 100644
--- a/src/setups/sedov3d/setup.hpp
+++ b/src/setups/sedov3d/setup.hpp
@@ -67,8 +67,9 @@ public:
         auto const& param_setup = m_param_setup;
         auto const r = grid.x0;
         auto const& dv = grid.dv;
-        int const ny_2 = grid.Nx_glob_ng[1] / 2;
-        int const nz_2 = grid.Nx_glob_ng[2] / 2;
+        // Local indices of the central cell of the whole mesh
+        int const ny_2 = (grid.Nx_glob_ng[1] / 2) + grid.Nghost[1] - grid.range.Corner_min[1];
+        int const nz_2 = (grid.Nx_glob_ng[2] / 2) + grid.Nghost[2] - grid.range.Corner_min[2];
 
         if (geom == Geometry::Geom_cartesian) {
             throw std::runtime_error("No Sedov 3D in Cartesian implemented");
-- 
2.43.0

