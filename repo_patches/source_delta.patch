From 6094385e5cf26e24b059c5836ef0fe659c1daf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:20 +0000
Subject: [PATCH 01/30] fix: reject negative arguments in CubicSpline

Truncation toward zero maps every r in (-h,0) to interval 0, so the bounds
test accepted it and the first cubic was extrapolated silently.
---
 libsymmetrix/source/cubic_spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline.cpp b/libsymmetrix/source/cubic_spline.cpp
index f53eb70..beb96f4 100644
--- a/libsymmetrix/source/cubic_spline.cpp
+++ b/libsymmetrix/source/cubic_spline.cpp
@@ -16,7 +16,7 @@ double CubicSpline::evaluate(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
@@ -30,7 +30,7 @@ std::tuple<double,double> CubicSpline::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate_deriv.");
     const double x = r - h*i;
     const double xx = x*x;
@@ -44,7 +44,7 @@ std::tuple<double,double> CubicSpline::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i>=c.size()/4)
+    if (r<0 or i<0 or i>=c.size()/4)
         throw std::invalid_argument("Out of bounds in CubicSpline::evaluate_deriv.");
     const double x = r - h*i;
     const double xx = x*x;
-- 
2.43.0


From abbbd221b11e03f02a83890567cd48eb3ac3418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:20 +0000
Subject: [PATCH 02/30] fix: reject out-of-table arguments in CubicSplineSet

evaluate and evaluate_derivs read past (or before) the coefficient table for
r >= h*(num_nodes-1) and for r < 0. Throw as CubicSpline does.
---
 libsymmetrix/source/cubic_spline_set.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set.cpp b/libsymmetrix/source/cubic_spline_set.cpp
index 319d87f..2adeff2 100644
--- a/libsymmetrix/source/cubic_spline_set.cpp
+++ b/libsymmetrix/source/cubic_spline_set.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include <vector>
 
 #include "cubic_spline_set.hpp"
@@ -28,8 +29,9 @@ void CubicSplineSet::evaluate(
     double r,
     std::span<double> values)
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r<0 or i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSet::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -51,8 +53,9 @@ void CubicSplineSet::evaluate_derivs(double r,
                                      std::span<double> values,
                                      std::span<double> derivs)
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r<0 or i<0 or i>=num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSet::evaluate_derivs.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
-- 
2.43.0


From 848ea24ebef5725ffc7f829259f9e3264fd50ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 03/30] fix: add up repeated monomials in
 MultivariatePolynomial

The product graph kept only the first coefficient of a repeated monomial
(map::insert), while evaluate_simple and evaluate_gradient_simple sum all
terms, so the two disagreed.
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index 951f320..f668494 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -35,7 +35,7 @@ MultivariatePolynomial::MultivariatePolynomial(
     // (ordering ensured because the map sorts by key)
     std::map<std::vector<int>,double,decltype(lex_less)> map;
     for (int i=0; i<monomials.size(); ++i)
-        map.insert({monomials[i], coefficients[i]});
+        map[monomials[i]] += coefficients[i];  // repeated monomials add up
     coefficients.clear();
     monomials.clear();
     for (auto [m,c] : map) {
-- 
2.43.0


From c84a8beb277ecfd4638357c0721cd10f049f47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:38 +0000
Subject: [PATCH 04/30] fix: size MultivariatePolynomial buffers for single
 evaluations

evaluate_batch with an empty batch shrinks node_values and node_adjoints to
zero elements; a following evaluate or evaluate_gradient then wrote past them.
---
 libsymmetrix/source/multivariate_polynomial.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsymmetrix/source/multivariate_polynomial.cpp b/libsymmetrix/source/multivariate_polynomial.cpp
index f668494..cb392ac 100644
--- a/libsymmetrix/source/multivariate_polynomial.cpp
+++ b/libsymmetrix/source/multivariate_polynomial.cpp
@@ -149,6 +149,7 @@ auto MultivariatePolynomial::evaluate_batch(
 void MultivariatePolynomial::initialize_forward_pass(
     const std::vector<double>& x)
 {
+    node_values.resize(nodes.size());
     for (int i=0; i<num_variables; ++i)
         node_values[i] = x[i];
 }
@@ -163,6 +164,7 @@ void MultivariatePolynomial::forward_pass()
 
 void MultivariatePolynomial::initialize_backward_pass()
 {
+    node_adjoints.resize(nodes.size());
     cblas_dcopy(node_coefficients.size(),
                 node_coefficients.data(), 1,
                 node_adjoints.data(), 1);
-- 
2.43.0


From 4f97862fb12b03c56020b34694aff9e74d643f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:50 +0000
Subject: [PATCH 05/30] fix: fill or refuse output arrays in the CubicSplineSet
 bindings

Arrays that pybind11 had to convert (other type) received no result, strided
arrays were written as if contiguous, and short arrays were overrun.
---
 symmetrix/source/cpp/cubic_spline_set.cpp     | 24 +++++++++++++------
 .../source/cpp/cubic_spline_set_kokkos.cpp    | 24 +++++++++++++------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/symmetrix/source/cpp/cubic_spline_set.cpp b/symmetrix/source/cpp/cubic_spline_set.cpp
index 226a35b..3a049b6 100644
--- a/symmetrix/source/cpp/cubic_spline_set.cpp
+++ b/symmetrix/source/cpp/cubic_spline_set.cpp
@@ -7,19 +7,29 @@
 
 namespace py = pybind11;
 
+// results are written in place, so only a writable C-contiguous array of doubles will do
+using output_array = py::array_t<double,py::array::c_style>;
+
+static std::span<double> output_span(output_array& array, int size)
+{
+    if (array.size() < size)
+        throw std::invalid_argument("Output array is too small for the number of splines.");
+    return std::span<double>(array.mutable_data(), array.size());
+}
+
 void bind_cubic_spline_set(py::module_ &m)
 {
     py::class_<CubicSplineSet>(m, "CubicSplineSet")
         .def(py::init<double,std::vector<std::vector<double>>,std::vector<std::vector<double>>>())
         .def("evaluate",
-            [](CubicSplineSet& self, double r, py::array_t<double> values_numpy) {
-                auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
+            [](CubicSplineSet& self, double r, output_array values_numpy) {
+                auto values = output_span(values_numpy, self.num_splines);
                 self.evaluate(r, values);
-            })
+            }, py::arg("r"), py::arg("values").noconvert())
         .def("evaluate_derivs",
-            [](CubicSplineSet& self, double r, py::array_t<double> values_numpy, py::array_t<double> derivs_numpy) {
-               auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
-               auto derivs = std::span<double>(derivs_numpy.mutable_data(), derivs_numpy.size());
+            [](CubicSplineSet& self, double r, output_array values_numpy, output_array derivs_numpy) {
+               auto values = output_span(values_numpy, self.num_splines);
+               auto derivs = output_span(derivs_numpy, self.num_splines);
                self.evaluate_derivs(r, values, derivs);
-            });
+            }, py::arg("r"), py::arg("values").noconvert(), py::arg("derivs").noconvert());
 }
diff --git a/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp b/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
index cbd22f3..a8704df 100644
--- a/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
+++ b/symmetrix/source/cpp/cubic_spline_set_kokkos.cpp
@@ -6,19 +6,29 @@
 
 namespace py = pybind11;
 
+// results are written in place, so only a writable C-contiguous array of doubles will do
+using output_array = py::array_t<double,py::array::c_style>;
+
+static std::span<double> output_span(output_array& array, int size)
+{
+    if (array.size() < size)
+        throw std::invalid_argument("Output array is too small for the number of splines.");
+    return std::span<double>(array.mutable_data(), array.size());
+}
+
 void bind_cubic_spline_set_kokkos(py::module_ &m)
 {
     py::class_<CubicSplineSetKokkos>(m, "CubicSplineSetKokkos")
         .def(py::init<double,std::vector<std::vector<double>>,std::vector<std::vector<double>>>())
         .def("evaluate",
-            [](CubicSplineSetKokkos& self, double r, py::array_t<double> values_numpy) {
-                auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
+            [](CubicSplineSetKokkos& self, double r, output_array values_numpy) {
+                auto values = output_span(values_numpy, self.num_splines);
                 self.evaluate(r, values);
-            })
+            }, py::arg("r"), py::arg("values").noconvert())
         .def("evaluate_derivs",
-            [](CubicSplineSetKokkos& self, double r, py::array_t<double> values_numpy, py::array_t<double> derivs_numpy) {
-               auto values = std::span<double>(values_numpy.mutable_data(), values_numpy.size());
-               auto derivs = std::span<double>(derivs_numpy.mutable_data(), derivs_numpy.size());
+            [](CubicSplineSetKokkos& self, double r, output_array values_numpy, output_array derivs_numpy) {
+               auto values = output_span(values_numpy, self.num_splines);
+               auto derivs = output_span(derivs_numpy, self.num_splines);
                self.evaluate_derivs(r, values, derivs);
-            });
+            }, py::arg("r"), py::arg("values").noconvert(), py::arg("derivs").noconvert());
 }
-- 
2.43.0


From 809da7013575a0f7959159096d111b39563f0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:55 +0000
Subject: [PATCH 06/30] fix: let MACE neighbours at or beyond the cutoff
 contribute nothing

compute_R0/R1 and the density scaling threw an out-of-bounds error (and,
before the spline bounds checks, read past the table) for a neighbour in
the last 1e-12 before the cutoff or beyond it.
---
 libsymmetrix/source/cubic_spline.cpp     |  6 +++++
 libsymmetrix/source/cubic_spline.hpp     |  3 +++
 libsymmetrix/source/cubic_spline_set.cpp |  6 +++++
 libsymmetrix/source/cubic_spline_set.hpp |  3 +++
 libsymmetrix/source/mace.cpp             | 34 ++++++++++++++++++------
 5 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline.cpp b/libsymmetrix/source/cubic_spline.cpp
index beb96f4..925bce0 100644
--- a/libsymmetrix/source/cubic_spline.cpp
+++ b/libsymmetrix/source/cubic_spline.cpp
@@ -54,6 +54,12 @@ std::tuple<double,double> CubicSpline::evaluate_deriv_divided(double r)
     return {c0 + c1*x + c2*xx + c3*xxx, (c1 + 2*c2*x + 3*c3*xx) / r};
 }
 
+bool CubicSpline::covers(double r) const
+{
+    const int i = static_cast<int>(r / h);
+    return r>=0 and i>=0 and i<c.size()/4;
+}
+
 auto CubicSpline::generate_coefficients(
     double h,
     std::vector<double> nodal_values,
diff --git a/libsymmetrix/source/cubic_spline.hpp b/libsymmetrix/source/cubic_spline.hpp
index 32cc28c..5f0e930 100644
--- a/libsymmetrix/source/cubic_spline.hpp
+++ b/libsymmetrix/source/cubic_spline.hpp
@@ -15,6 +15,9 @@ auto evaluate(double r) -> double;
 auto evaluate_deriv(double r) -> std::tuple<double,double>;
 auto evaluate_deriv_divided(double r) -> std::tuple<double,double>;
 
+// whether r lies inside the table
+bool covers(double r) const;
+
 private:
 
 double h;
diff --git a/libsymmetrix/source/cubic_spline_set.cpp b/libsymmetrix/source/cubic_spline_set.cpp
index 2adeff2..956b505 100644
--- a/libsymmetrix/source/cubic_spline_set.cpp
+++ b/libsymmetrix/source/cubic_spline_set.cpp
@@ -85,3 +85,9 @@ void CubicSplineSet::evaluate_derivs(double r,
     for (int j=0; j<num_splines; ++j)
         derivs[j] += three_xx*c_i[j];
 }
+
+bool CubicSplineSet::covers(double r) const
+{
+    const int i = static_cast<int>(r / h);
+    return r>=0 and i>=0 and i<num_nodes-1;
+}
diff --git a/libsymmetrix/source/cubic_spline_set.hpp b/libsymmetrix/source/cubic_spline_set.hpp
index 0745aa8..8cfd81b 100644
--- a/libsymmetrix/source/cubic_spline_set.hpp
+++ b/libsymmetrix/source/cubic_spline_set.hpp
@@ -14,6 +14,9 @@ CubicSplineSet(double h,
 void evaluate(double r, std::span<double> values);
 void evaluate_derivs(double r, std::span<double> values, std::span<double> derivs);
 
+// whether r lies inside the tables
+bool covers(double r) const;
+
 // TODO: protect this with accessor
 int num_splines;
 
diff --git a/libsymmetrix/source/mace.cpp b/libsymmetrix/source/mace.cpp
index 21c27b4..3e5ff7a 100644
--- a/libsymmetrix/source/mace.cpp
+++ b/libsymmetrix/source/mace.cpp
@@ -83,7 +83,12 @@ void MACE::compute_R0(
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
             auto R0_ij = std::span<double>(R0.data()+ij*num_spl,num_spl);
             auto R0_deriv_ij = std::span<double>(R0_deriv.data()+ij*num_spl,num_spl);
-            spl_set_0[type_ij]->evaluate_derivs(r[ij], R0_ij, R0_deriv_ij);
+            if (spl_set_0[type_ij]->covers(r[ij])) {
+                spl_set_0[type_ij]->evaluate_derivs(r[ij], R0_ij, R0_deriv_ij);
+            } else {  // zero at and beyond the cutoff
+                std::fill(R0_ij.begin(), R0_ij.end(), 0.0);
+                std::fill(R0_deriv_ij.begin(), R0_deriv_ij.end(), 0.0);
+            }
             ij += 1;
         }
     }
@@ -109,7 +114,12 @@ void MACE::compute_R1(
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
             auto R1_ij = std::span<double>(R1.data()+ij*num_spl,num_spl);
             auto R1_deriv_ij = std::span<double>(R1_deriv.data()+ij*num_spl,num_spl);
-            spl_set_1[type_ij]->evaluate_derivs(r[ij], R1_ij, R1_deriv_ij);
+            if (spl_set_1[type_ij]->covers(r[ij])) {
+                spl_set_1[type_ij]->evaluate_derivs(r[ij], R1_ij, R1_deriv_ij);
+            } else {  // zero at and beyond the cutoff
+                std::fill(R1_ij.begin(), R1_ij.end(), 0.0);
+                std::fill(R1_deriv_ij.begin(), R1_deriv_ij.end(), 0.0);
+            }
             ij += 1;
         }
     }
@@ -287,7 +297,8 @@ void MACE::compute_A0_scaled(
             const int type_ij = (type_i <= type_j)
                 ? type_i*(2*atomic_numbers.size()-type_i-1)/2 + type_j
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
-            A0_scale_factor += A0_splines[type_ij].evaluate(r[ij]);
+            if (A0_splines[type_ij].covers(r[ij]))
+                A0_scale_factor += A0_splines[type_ij].evaluate(r[ij]);
             ij += 1;
         }
         auto A0_i = A0.data()+i*num_lm*num_channels;
@@ -318,7 +329,8 @@ void MACE::reverse_A0_scaled(
             const int type_ij = (type_i <= type_j)
                 ? type_i*(2*atomic_numbers.size()-type_i-1)/2 + type_j
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
-            A0_scale_factor += A0_splines[type_ij].evaluate(r[ij]);
+            if (A0_splines[type_ij].covers(r[ij]))
+                A0_scale_factor += A0_splines[type_ij].evaluate(r[ij]);
             ij += 1;
         }
         // update dE/dxyz
@@ -331,7 +343,9 @@ void MACE::reverse_A0_scaled(
             const int type_ij = (type_i <= type_j)
                 ? type_i*(2*atomic_numbers.size()-type_i-1)/2 + type_j
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
-            auto [f,d] = A0_splines[type_ij].evaluate_deriv(r[ij]);
+            double d = 0.0;
+            if (A0_splines[type_ij].covers(r[ij]))
+                d = std::get<1>(A0_splines[type_ij].evaluate_deriv(r[ij]));
             auto xyz_ij = xyz.data()+ij*3;
             auto node_forces_ij = node_forces.data()+ij*3;
             node_forces_ij[0] += dA0_dot_A0/A0_scale_factor*d*xyz_ij[0]/r[ij];
@@ -695,7 +709,8 @@ void MACE::compute_A1_scaled(
             const int type_ij = (type_i <= type_j)
                 ? type_i*(2*atomic_numbers.size()-type_i-1)/2 + type_j
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
-            A1_scale_factor += A1_splines[type_ij].evaluate(r[ij]);
+            if (A1_splines[type_ij].covers(r[ij]))
+                A1_scale_factor += A1_splines[type_ij].evaluate(r[ij]);
             ij += 1;
         }
         auto A1_i = A1.data()+i*num_lm*num_channels;
@@ -729,7 +744,8 @@ void MACE::reverse_A1_scaled(
             const int type_ij = (type_i <= type_j)
                 ? type_i*(2*atomic_numbers.size()-type_i-1)/2 + type_j
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
-            A1_scale_factor += A1_splines[type_ij].evaluate(r[ij]);
+            if (A1_splines[type_ij].covers(r[ij]))
+                A1_scale_factor += A1_splines[type_ij].evaluate(r[ij]);
             ij += 1;
         }
         // update dE/dxyz
@@ -742,7 +758,9 @@ void MACE::reverse_A1_scaled(
             const int type_ij = (type_i <= type_j)
                 ? type_i*(2*atomic_numbers.size()-type_i-1)/2 + type_j
                 : type_j*(2*atomic_numbers.size()-type_j-1)/2 + type_i;
-            auto [f,d] = A1_splines[type_ij].evaluate_deriv(r[ij]);
+            double d = 0.0;
+            if (A1_splines[type_ij].covers(r[ij]))
+                d = std::get<1>(A1_splines[type_ij].evaluate_deriv(r[ij]));
             auto xyz_ij = xyz.data()+ij*3;
             auto node_forces_ij = node_forces.data()+ij*3;
             node_forces_ij[0] += dA1_dot_A1/A1_scale_factor*d*xyz_ij[0]/r[ij];
-- 
2.43.0


From b383269e2e46b1c99ac50ca512845aca2cc85ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:55 +0000
Subject: [PATCH 07/30] fix: define Cartesian spherical harmonics on the z axis
 and the xz plane

sph_harm_xyz and real_sph_harm_xyz divided zero by zero on the z axis and
took azimuth 0 instead of pi for y=0, x<0; acos also lost half the digits
near the poles.
---
 libsymmetrix/source/spherical_harmonic.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libsymmetrix/source/spherical_harmonic.cpp b/libsymmetrix/source/spherical_harmonic.cpp
index 1e2957c..7c4273b 100644
--- a/libsymmetrix/source/spherical_harmonic.cpp
+++ b/libsymmetrix/source/spherical_harmonic.cpp
@@ -19,9 +19,8 @@ std::complex<double> sph_harm(int l, int m, double polar, double azimuth) {
 }
 
 std::complex<double> sph_harm_xyz(int l, int m, double x, double y, double z) {
-    double r = std::sqrt(x*x+y*y+z*z);
-    double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double polar = std::atan2(std::sqrt(x*x+y*y), z);
+    double azimuth = std::atan2(y, x);
     return sph_harm(l, m, polar, azimuth);
 }
 
@@ -36,9 +35,8 @@ double real_sph_harm(int l, int m, double polar, double azimuth) {
 }
 
 double real_sph_harm_xyz(int l, int m, double x, double y, double z) {
-    double r = std::sqrt(x*x+y*y+z*z);
-    double polar = std::acos(z/r);
-    double azimuth = ((y>0)-(y<0)) * std::acos(x/std::sqrt(x*x+y*y));
+    double polar = std::atan2(std::sqrt(x*x+y*y), z);
+    double azimuth = std::atan2(y, x);
     return real_sph_harm(l, m, polar, azimuth);
 }
 
-- 
2.43.0


From b7ac91d2ceeb14ea78a22c6590a594d305b14f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:04 +0000
Subject: [PATCH 08/30] fix: read strided arrays correctly in the MACE bindings

array_t without c_style accepts non-contiguous arrays as they are, but the
bindings read them as contiguous memory.
---
 symmetrix/source/cpp/mace.cpp | 112 ++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 54 deletions(-)

diff --git a/symmetrix/source/cpp/mace.cpp b/symmetrix/source/cpp/mace.cpp
index 74765cd..5f60240 100644
--- a/symmetrix/source/cpp/mace.cpp
+++ b/symmetrix/source/cpp/mace.cpp
@@ -7,6 +7,10 @@
 
 namespace py = pybind11;
 
+// arguments are read as contiguous memory, so other layouts are converted first
+template <typename T>
+using input_array = py::array_t<T,py::array::c_style|py::array::forcecast>;
+
 void bind_mace(py::module_ &m)
 {
     py::class_<MACE>(m, "MACE")
@@ -34,12 +38,12 @@ void bind_mace(py::module_ &m)
         .def_readwrite("H2_adj", &MACE::H2_adj)
         .def("compute_node_energies_forces",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           input_array<int> node_types,
+                           input_array<int> num_neigh,
+                           input_array<int> neigh_indices,
+                           input_array<int> neigh_types,
+                           input_array<double> xyz,
+                           input_array<double> r) {
                 self.compute_node_energies_forces(
                            num_nodes, 
                            std::span<const int>(node_types.data(), node_types.size()),
@@ -52,10 +56,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R0",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_R0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -66,10 +70,10 @@ void bind_mace(py::module_ &m)
         .def("compute_R1",
             [] (MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_R1(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -78,15 +82,15 @@ void bind_mace(py::module_ &m)
                     std::span<const double>(r.data(), r.size()));
             })
         .def("compute_Y",
-            [](MACE& self, py::array_t<double> xyz) {
+            [](MACE& self, input_array<double> xyz) {
                 self.compute_Y(std::span<const double>(xyz.data(), xyz.size()));
             })
         .def("compute_A0",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -95,11 +99,11 @@ void bind_mace(py::module_ &m)
             })
         .def("reverse_A0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_types,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r) {
+                           input_array<int> node_types,
+                           input_array<int> num_neigh,
+                           input_array<int> neigh_types,
+                           input_array<double> xyz,
+                           input_array<double> r) {
                 self.reverse_A0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
                                 std::span<const int>(num_neigh.data(), num_neigh.size()),
@@ -110,10 +114,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -124,11 +128,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A0_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> xyz,
+                    input_array<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -139,13 +143,13 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           input_array<int> node_types) {
                 self.compute_M0(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_M0",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           input_array<int> node_types) {
                 self.reverse_M0(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
@@ -153,18 +157,18 @@ void bind_mace(py::module_ &m)
         .def("reverse_H1", &MACE::reverse_H1)
         .def("compute_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices) {
+                           input_array<int> num_neigh,
+                           input_array<int> neigh_indices) {
                 self.compute_Phi1(num_nodes, 
                                   std::span<const int>(num_neigh.data(), num_neigh.size()),
                                   std::span<const int>(neigh_indices.data(), neigh_indices.size()));
             })
         .def("reverse_Phi1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> num_neigh,
-                           py::array_t<int> neigh_indices,
-                           py::array_t<double> xyz,
-                           py::array_t<double> r,
+                           input_array<int> num_neigh,
+                           input_array<int> neigh_indices,
+                           input_array<double> xyz,
+                           input_array<double> r,
                            bool zero_dxyz,
                            bool zero_H1_adj) {
                 self.reverse_Phi1(num_nodes, 
@@ -180,10 +184,10 @@ void bind_mace(py::module_ &m)
         .def("compute_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -194,11 +198,11 @@ void bind_mace(py::module_ &m)
         .def("reverse_A1_scaled",
             [](MACE& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> xyz,
+                    input_array<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     std::span<const int>(node_types.data(), node_types.size()),
@@ -209,26 +213,26 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           input_array<int> node_types) {
                 self.compute_M1(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
 
         .def("reverse_M1",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           input_array<int> node_types) {
                 self.reverse_M1(num_nodes,
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("compute_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           input_array<int> node_types) {
                 self.compute_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()));
             })
         .def("reverse_H2",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types,
+                           input_array<int> node_types,
                            bool zero_H1_adj) {
                 self.reverse_H2(num_nodes, 
                                 std::span<const int>(node_types.data(), node_types.size()),
@@ -236,7 +240,7 @@ void bind_mace(py::module_ &m)
             })
         .def("compute_readouts",
             [](MACE& self, const int num_nodes,
-                           py::array_t<int> node_types) {
+                           input_array<int> node_types) {
                 self.compute_readouts(num_nodes, 
                                       std::span<const int>(node_types.data(), node_types.size()));
             });
-- 
2.43.0


From ea84b3205841367f0040fd215f4f5d99163e95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:57 +0000
Subject: [PATCH 09/30] fix: refuse model files that lack entries the MACE
 evaluators need

Missing nested entries were silently created empty and short arrays were
read past their end, so an incomplete file gave a model that computed
numbers from absent data.
---
 libsymmetrix/source/mace.cpp        |   2 +
 libsymmetrix/source/mace_file.hpp   | 152 ++++++++++++++++++++++++++++
 libsymmetrix/source/mace_kokkos.cpp |   2 +
 3 files changed, 156 insertions(+)
 create mode 100644 libsymmetrix/source/mace_file.hpp

diff --git a/libsymmetrix/source/mace.cpp b/libsymmetrix/source/mace.cpp
index 3e5ff7a..ab85dfc 100644
--- a/libsymmetrix/source/mace.cpp
+++ b/libsymmetrix/source/mace.cpp
@@ -8,6 +8,7 @@
 
 #include "cblas.hpp"
 #include "mace.hpp"
+#include "mace_file.hpp"
 
 MACE::MACE(std::string filename)
 {
@@ -925,6 +926,7 @@ void MACE::load_from_json(
 {
     std::ifstream f(filename);
     nlohmann::json file = nlohmann::json::parse(f);
+    check_mace_file(file);
 
     // Basic model information
     num_elements = file["num_elements"];
diff --git a/libsymmetrix/source/mace_file.hpp b/libsymmetrix/source/mace_file.hpp
new file mode 100644
index 0000000..f380d61
--- /dev/null
+++ b/libsymmetrix/source/mace_file.hpp
@@ -0,0 +1,152 @@
+#pragma once
+
+#include <stdexcept>
+#include <string>
+#include <vector>
+
+#include "nlohmann/json.hpp"
+
+// Throws unless the model file has every entry the MACE evaluators use, with consistent sizes.
+inline void check_mace_file(const nlohmann::json& file)
+{
+    using json = nlohmann::json;
+
+    auto require = [](const bool condition, const std::string& entry) {
+        if (not condition)
+            throw std::runtime_error("Missing or inconsistent data in model file: " + entry + ".");
+    };
+    auto require_size = [&](const json& array, const size_t size, const std::string& entry) {
+        require(array.is_array() and array.size()==size, entry);
+    };
+
+    // basic model information
+    const int num_elements = file.at("num_elements");
+    const int num_channels = file.at("num_channels");
+    const int l_max = file.at("l_max");
+    const int L_max = file.at("L_max");
+    require(num_elements>0, "num_elements");
+    require(num_channels>0, "num_channels");
+    require(l_max>=0, "l_max");
+    require(L_max>=0, "L_max");
+    require(file.at("r_cut").get<double>()>0, "r_cut");
+    const int num_lm = (l_max+1)*(l_max+1);
+    const int num_LM = (L_max+1)*(L_max+1);
+    const int num_pairs = num_elements*(num_elements+1)/2;
+    const int K = num_channels;
+    require_size(file.at("atomic_numbers"), num_elements, "atomic_numbers");
+    require_size(file.at("atomic_energies"), num_elements, "atomic_energies");
+
+    // ZBL
+    if (file.at("has_zbl").get<bool>()) {
+        for (auto entry : {"zbl_a_exp", "zbl_a_prefactor", "zbl_p"})
+            require(file.at(entry).is_number(), entry);
+        require_size(file.at("zbl_c"), 4, "zbl_c");
+        require(file.at("zbl_covalent_radii").is_array(), "zbl_covalent_radii");
+        for (const int Z : file.at("atomic_numbers"))
+            require(Z>=0 and Z<file.at("zbl_covalent_radii").size(), "zbl_covalent_radii");
+    }
+
+    // tables
+    auto require_table = [&](const json& table, const size_t num_nodes, const std::string& entry) {
+        require(num_nodes>=2, entry);
+        require_size(table, num_nodes, entry);
+    };
+    auto require_tables = [&](const std::string& suffix, const size_t num_splines) {
+        require(file.at("radial_spline_h").get<double>()>0, "radial_spline_h");
+        const size_t num_nodes = file.at("radial_spline_values_"+suffix).at(0).at(0).size();
+        for (auto prefix : {"radial_spline_values_", "radial_spline_derivs_"}) {
+            const auto entry = prefix+suffix;
+            require_size(file.at(entry), num_pairs, entry);
+            for (const auto& pair : file.at(entry)) {
+                require_size(pair, num_splines, entry);
+                for (const auto& table : pair)
+                    require_table(table, num_nodes, entry);
+            }
+        }
+    };
+    auto require_scaling = [&](const std::string& prefix) {
+        if (not file.at(prefix+"_scaled").get<bool>())
+            return;
+        require(file.at(prefix+"_spline_h").get<double>()>0, prefix+"_spline_h");
+        const size_t num_nodes = file.at(prefix+"_spline_values").at(0).size();
+        for (auto suffix : {"_spline_values", "_spline_derivs"}) {
+            require_size(file.at(prefix+suffix), num_pairs, prefix+suffix);
+            for (const auto& table : file.at(prefix+suffix))
+                require_table(table, num_nodes, prefix+suffix);
+        }
+    };
+    const auto& Phi1_l = file.at("Phi1_l");
+    require(Phi1_l.is_array(), "Phi1_l");
+    require_tables("0", (l_max+1)*K);
+    require_tables("1", Phi1_l.size()*K);
+    require_scaling("A0");
+    require_scaling("A1");
+
+    // polynomials
+    auto require_monomials = [&](const json& monomials, const std::string& entry) {
+        require(monomials.is_array(), entry);
+        for (const auto& monomial : monomials) {
+            require(monomial.is_array() and monomial.size()>0, entry);
+            for (const int lm : monomial)
+                require(lm>=0 and lm<num_lm, entry);
+        }
+    };
+    require_monomials(file.at("M1_monomials"), "M1_monomials");
+    for (int LM=0; LM<num_LM; ++LM)
+        require_monomials(file.at("M0_monomials").at(std::to_string(LM)), "M0_monomials");
+    for (int a=0; a<num_elements; ++a) {
+        const auto& M0_weights_a = file.at("M0_weights").at(std::to_string(a));
+        const auto& M1_weights_a = file.at("M1_weights").at(std::to_string(a));
+        for (int k=0; k<K; ++k) {
+            for (int LM=0; LM<num_LM; ++LM)
+                require_size(
+                    M0_weights_a.at(std::to_string(LM)).at(std::to_string(k)),
+                    file["M0_monomials"][std::to_string(LM)].size(), "M0_weights");
+            require_size(M1_weights_a.at(std::to_string(k)), file["M1_monomials"].size(), "M1_weights");
+        }
+    }
+
+    // Phi1
+    require_size(file.at("Phi1_l1"), Phi1_l.size(), "Phi1_l1");
+    require_size(file.at("Phi1_l2"), Phi1_l.size(), "Phi1_l2");
+    int num_lme = 0, num_lelm1lm2 = 0;
+    auto num_e = std::vector<int>(l_max+1, 0);
+    for (int i=0; i<Phi1_l.size(); ++i) {
+        const int l = Phi1_l[i], l1 = file["Phi1_l1"][i], l2 = file["Phi1_l2"][i];
+        require(l>=0 and l<=l_max, "Phi1_l");
+        require(l1>=0 and l1<=l_max, "Phi1_l1");
+        require(l2>=0 and l2<=L_max, "Phi1_l2");
+        num_lme += 2*l+1;
+        num_lelm1lm2 += (2*l1+1)*(2*l2+1);
+        num_e[l] += 1;
+    }
+    require(file.at("Phi1_clebsch_gordan").is_array(), "Phi1_clebsch_gordan");
+    const size_t num_terms = file["Phi1_clebsch_gordan"].size();
+    require_size(file.at("Phi1_lme"), num_terms, "Phi1_lme");
+    for (const int lme : file["Phi1_lme"])
+        require(lme>=0 and lme<num_lme, "Phi1_lme");
+    require_size(file.at("Phi1_lelm1lm2"), num_terms, "Phi1_lelm1lm2");
+    for (const int lelm1lm2 : file["Phi1_lelm1lm2"])
+        require(lelm1lm2>=0 and lelm1lm2<num_lelm1lm2, "Phi1_lelm1lm2");
+
+    // weights
+    require_size(file.at("H0_weights"), num_elements*K, "H0_weights");
+    require_size(file.at("A0_weights"), num_elements, "A0_weights");
+    for (const auto& weights : file["A0_weights"]) {
+        require_size(weights, l_max+1, "A0_weights");
+        for (const auto& weights_l : weights)
+            require_size(weights_l, K*K, "A0_weights");
+    }
+    require_size(file.at("H1_weights"), (L_max+1)*K*K, "H1_weights");
+    require_size(file.at("A1_weights"), l_max+1, "A1_weights");
+    for (int l=0; l<=l_max; ++l)
+        require_size(file["A1_weights"][l], num_e[l]*K*K, "A1_weights");
+    require_size(file.at("H2_weights_for_H1"), num_elements, "H2_weights_for_H1");
+    for (const auto& weights : file["H2_weights_for_H1"])
+        require_size(weights, K*K, "H2_weights_for_H1");
+    require_size(file.at("H2_weights_for_M1"), K*K, "H2_weights_for_M1");
+    require_size(file.at("readout_1_weights"), K, "readout_1_weights");
+    require_size(file.at("readout_2_weights_1"), 16*K, "readout_2_weights_1");
+    require_size(file.at("readout_2_weights_2"), 16, "readout_2_weights_2");
+    require(file.at("readout_2_scale_factor").is_number(), "readout_2_scale_factor");
+}
diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 80ba9bd..0db2b84 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -11,6 +11,7 @@
 
 #include "tools_kokkos.hpp"
 #include "mace_kokkos.hpp"
+#include "mace_file.hpp"
 
 using Kokkos::ALL;
 using Kokkos::LayoutRight;
@@ -1546,6 +1547,7 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
 {
     std::ifstream f(filename);
     nlohmann::json file = nlohmann::json::parse(f);
+    check_mace_file(file);
     
     // Basic model information
     num_elements = file["num_elements"];
-- 
2.43.0


From 534777a3a63e1146b7dbabf912e2da4f5effed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 10/30] fix: give atoms without neighbors their energy in the
 ASE calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 067af9a..f9e5636 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -75,9 +75,9 @@ class Symmetrix(Calculator):
         ase_atomic_numbers = self.atoms.get_atomic_numbers().tolist()
         mace_atomic_numbers = self.evaluator.atomic_numbers
         i_list, j_list, r, xyz = neighbor_list('ijdD', self.atoms, self.cutoff)
-        num_nodes = np.max(i_list) + 1
+        num_nodes = len(self.atoms)  # including atoms without neighbors
         node_types = [mace_atomic_numbers.index(ase_atomic_numbers[i]) for i in range(num_nodes)]
-        num_neigh = np.bincount(j_list, minlength=num_nodes)
+        num_neigh = np.bincount(i_list, minlength=num_nodes)
         neigh_types = [mace_atomic_numbers.index(ase_atomic_numbers[j]) for j in j_list]
         self.evaluator.compute_node_energies_forces(
             num_nodes, node_types, num_neigh, j_list, neigh_types, xyz.flatten(), r)
-- 
2.43.0


From 296e8ff375a12c39a834f97285186deea0e9e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:44 +0000
Subject: [PATCH 11/30] fix: evaluate structures without a cell in the ASE
 calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index f9e5636..7f77ac6 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -98,5 +98,8 @@ class Symmetrix(Calculator):
 
         self.results['forces'] = atom_forces
 
-        # stress from pair_forces
-        self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        # stress from pair_forces, which requires a cell
+        if self.atoms.cell.rank == 3:
+            self.results['stress'] = full_3x3_to_voigt_6_stress((-pair_forces.T @ xyz)  / self.atoms.get_volume())
+        else:
+            self.results.pop('stress', None)
-- 
2.43.0


From 9032cef4857218c4c629b26973fa26b3cdfe9f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:04 +0000
Subject: [PATCH 12/30] fix: flush the converted model before loading it in the
 ASE calculator

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index 7f77ac6..c110e43 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -65,6 +65,7 @@ class Symmetrix(Calculator):
             with NamedTemporaryFile("w") as fout:
                 logging.warning(f"Converting via NamedTemporaryFile {fout.name}")
                 fout.write(json.dumps(data))
+                fout.flush()
                 self.evaluator = MACE(fout.name)
 
         self.cutoff = self.evaluator.r_cut
-- 
2.43.0


From f44c3b2a47fe946b5e53085231a80cf955f80b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:50 +0000
Subject: [PATCH 13/30] fix: CubicSplineKokkos rejects out-of-table arguments
 and reads finished host copies

---
 libsymmetrix/source/cubic_spline_kokkos.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_kokkos.cpp b/libsymmetrix/source/cubic_spline_kokkos.cpp
index 882788b..e9098ec 100644
--- a/libsymmetrix/source/cubic_spline_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_kokkos.cpp
@@ -27,7 +27,7 @@ double CubicSplineKokkos::evaluate(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i >= num_coeffs / 4)
+    if (r < 0 || i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate.");
     
     const double x = r - h * i;
@@ -35,7 +35,7 @@ double CubicSplineKokkos::evaluate(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
     
     double ret = 0;
     const double c0 = h_c(i4);
@@ -51,7 +51,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i < 0 || i > num_coeffs / 4)
+    if (r < 0 || i < 0 || i >= num_coeffs / 4)
         throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
 
     const double x = r - h * i;
@@ -59,7 +59,7 @@ std::tuple<double, double> CubicSplineKokkos::evaluate_deriv(double r)
     const double xxx = xx * x;
     const int i4 = 4 * i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4 + 1);
@@ -76,15 +76,15 @@ std::tuple<double,double> CubicSplineKokkos::evaluate_deriv_divided(double r)
 {
     const int i = static_cast<int>(r / h);
     // TODO: something better with this bounds checking
-    if (i<0 or i> num_coeffs)
-        throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv.");
+    if (r < 0 || i < 0 || i >= num_coeffs / 4)
+        throw std::invalid_argument("Out of bounds in CubicSplineKokkos::evaluate_deriv_divided.");
 
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
     const int i4 = 4*i;
 
-    auto h_c = Kokkos::create_mirror_view(c);
+    auto h_c = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), c);
 
     const double c0 = h_c(i4);
     const double c1 = h_c(i4+1);
@@ -125,4 +125,5 @@ void CubicSplineKokkos::generate_coefficients(
         c(4*i+2) = (-3*nodal_values(i) - 2*h*nodal_derivs(i) + 3*nodal_values(i+1) - h*nodal_derivs(i+1)) / (h*h);
         c(4*i+3) = (2*nodal_values(i) + h*nodal_derivs(i) - 2*nodal_values(i+1) + h*nodal_derivs(i+1)) / (h*h*h);
     });
+    Kokkos::fence();
 }
-- 
2.43.0


From af81486d93d99e1d27a6104e9a64752e1a567591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:50 +0000
Subject: [PATCH 14/30] fix: CubicSplineSetKokkos rejects out-of-table
 arguments; coefficient extents from views

---
 .../source/cubic_spline_set_kokkos.cpp        | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 08c7484..249ab60 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include <vector>
 
 #include "cubic_spline_set_kokkos.hpp"
@@ -60,7 +61,7 @@ CubicSplineSetKokkos::CubicSplineSetKokkos(
     this->h = h;
     num_splines = nodal_values.extent(0);
     num_nodes = nodal_values.extent(1);
-    Kokkos::realloc(c, num_nodes-1, num_splines);
+    Kokkos::realloc(c, num_nodes-1, 4, num_splines);
 
     // Create and use the functor for initialization
     InitializeCoefficientsFunctor functor(h, nodal_values, nodal_derivs, c);
@@ -74,8 +75,9 @@ void CubicSplineSetKokkos::evaluate(
     double r,
     Kokkos::View<double*> values)
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r < 0 || i < 0 || i >= num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSetKokkos::evaluate.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -96,8 +98,9 @@ void CubicSplineSetKokkos::evaluate_derivs(double r,
                                            Kokkos::View<double*> values,
                                            Kokkos::View<double*> derivs) const
 {
-    // TODO: bounds checking
     const int i = static_cast<int>(r / h);
+    if (r < 0 || i < 0 || i >= num_nodes-1)
+        throw std::invalid_argument("Out of bounds in CubicSplineSetKokkos::evaluate_derivs.");
     const double x = r - h*i;
     const double xx = x*x;
     const double xxx = xx*x;
@@ -126,8 +129,22 @@ void CubicSplineSetKokkos::evaluate_derivs(Kokkos::View<const double*> r,
 {
     const auto c = this->c;
     const auto h = this->h;
+    const auto num_nodes = this->num_nodes;
     const auto num_splines = this->num_splines;
 
+    int num_outside = 0;
+    Kokkos::parallel_reduce(
+        "CubicSplineSet::evaluate_derivs::bounds",
+        r.size(),
+        KOKKOS_LAMBDA (const int i, int& outside) {
+            const int ii = static_cast<int>(r(i)/h);
+            if (r(i) < 0 || ii < 0 || ii >= num_nodes-1)
+                outside += 1;
+        },
+        num_outside);
+    if (num_outside > 0)
+        throw std::invalid_argument("Out of bounds in CubicSplineSetKokkos::evaluate_derivs.");
+
     Kokkos::parallel_for(
         "CubicSplineSet::evaluate_derivs",
         // TODO: empirically, this vector_length appears to be the best choice for nvidia,
@@ -137,7 +154,7 @@ void CubicSplineSetKokkos::evaluate_derivs(Kokkos::View<const double*> r,
         Kokkos::TeamPolicy<>(r.size(), 1, 32),
         KOKKOS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
             const int i = team_member.league_rank();
-            const int ii = static_cast<int>(r(i)/h); // TODO: bounds checking?
+            const int ii = static_cast<int>(r(i)/h);
             const double x = r(i) - h*ii;
             const double xx = x*x;
             const double xxx = xx*x;
-- 
2.43.0


From e915e78a49cc2ad8c74c3404fb6a512429ab6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:50 +0000
Subject: [PATCH 15/30] fix: MultivariatePolynomialKokkos gradient sums are
 atomic, host loops wait for kernels

---
 libsymmetrix/source/multivariate_polynomial_kokkos.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
index f587a28..13dd6f1 100644
--- a/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
+++ b/libsymmetrix/source/multivariate_polynomial_kokkos.cpp
@@ -121,9 +121,10 @@ double MultivariatePolynomialKokkos::evaluate_gradient_simple(
                     if (j == k) continue;
                     monomial_deriv *= x(monomials(i,k));
                 }
-                g(monomials(i,j)) += coefficients(i) * monomial_deriv;
+                Kokkos::atomic_add(&g(monomials(i,j)), coefficients(i) * monomial_deriv);
             }
         });
+    Kokkos::fence();
     return f;
 }
 
@@ -136,6 +137,7 @@ void MultivariatePolynomialKokkos::initialize_forward_pass(
         KOKKOS_CLASS_LAMBDA (const int i) {
             node_values(i) = x(i);
         });
+    Kokkos::fence();
 }
 
 void MultivariatePolynomialKokkos::forward_pass()
@@ -156,6 +158,7 @@ void MultivariatePolynomialKokkos::initialize_backward_pass()
         KOKKOS_CLASS_LAMBDA (const int i) {
             node_adjoints(i) = node_coefficients(i);
         });
+    Kokkos::fence();
 }
 
 void MultivariatePolynomialKokkos::backward_pass()
@@ -178,4 +181,5 @@ void MultivariatePolynomialKokkos::extract_gradient_from_graph(
         KOKKOS_CLASS_LAMBDA (const int i) {
             g(i) = node_adjoints(i);
         });
+    Kokkos::fence();
 }
-- 
2.43.0


From ff8f28996dfdf77d1a1fd6a40e31048f91e4dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:50 +0000
Subject: [PATCH 16/30] fix: MultilayerPerceptronKokkos::evaluate waits for the
 activation kernel

---
 libsymmetrix/source/multilayer_perceptron_kokkos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsymmetrix/source/multilayer_perceptron_kokkos.cpp b/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
index c9c1677..0a732bc 100644
--- a/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
+++ b/libsymmetrix/source/multilayer_perceptron_kokkos.cpp
@@ -77,6 +77,7 @@ void MultilayerPerceptronKokkos::evaluate(
                 KOKKOS_CLASS_LAMBDA (const int j) {
                     out(j) = activation_scale*out(j)/(1.0+Kokkos::exp(-out(j)));
                 });
+            Kokkos::fence();  // the next layer is applied on the host
         }
     }
 
-- 
2.43.0


From ed64630cae3078929f22634a82fbb58186c28095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:50 +0000
Subject: [PATCH 17/30] fix: RadialFunctionSetKokkos gives zero beyond its
 tables instead of reading past them

---
 libsymmetrix/source/radial_function_set_kokkos.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libsymmetrix/source/radial_function_set_kokkos.cpp b/libsymmetrix/source/radial_function_set_kokkos.cpp
index ae0dec3..6ff7126 100644
--- a/libsymmetrix/source/radial_function_set_kokkos.cpp
+++ b/libsymmetrix/source/radial_function_set_kokkos.cpp
@@ -133,6 +133,7 @@ void RadialFunctionSetKokkos<Precision>::evaluate(
 {
     const auto h = this->h;
     const auto num_functions = this->num_functions;
+    const auto num_radial_nodes = this->num_nodes;
     const auto c = this->coefficients;
 
     // TODO: shouldn't need all this
@@ -177,7 +178,17 @@ void RadialFunctionSetKokkos<Precision>::evaluate(
                 ? type_i*(2*num_unique_types-type_i-1)/2 + type_j
                 : type_j*(2*num_unique_types-type_j-1)/2 + type_i;
             // compute x, x^2, x^3
-            const int n = static_cast<int>(r(ij)/h); // TODO: bounds checking?
+            const int n = static_cast<int>(r(ij)/h);
+            // no contribution beyond the tables
+            if (r(ij) < 0 || n < 0 || n >= num_radial_nodes-1) {
+                Kokkos::parallel_for(
+                    Kokkos::TeamVectorRange(team_member, num_functions),
+                    [&] (const int k) {
+                        R(ij,k) = 0;
+                        R_deriv(ij,k) = 0;
+                    });
+                return;
+            }
             const double x = r(ij) - h*n;
             const double xx = x*x;
             const double xxx = xx*x;
-- 
2.43.0


From ef04e2b785af3b4669ef80f4a773b30b1e5df9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:45 +0000
Subject: [PATCH 18/30] fix: MACEKokkos neighbours at or beyond the cutoff
 contribute nothing

---
 libsymmetrix/source/mace_kokkos.cpp                | 13 ++++++++++++-
 libsymmetrix/source/radial_function_set_kokkos.cpp |  6 +++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 0db2b84..1eb0dde 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -140,6 +140,7 @@ void MACEKokkos<Precision>::compute_R0(
     const auto num_types = atomic_numbers.size();
     const auto h = R0_spline_h;
     const auto c = R0_spline_coefficients;
+    const int num_intervals = c.extent(1);
     auto R0 = this->R0;
     auto R0_deriv = this->R0_deriv;
 
@@ -151,8 +152,18 @@ void MACEKokkos<Precision>::compute_R0(
             const int type_i = node_types(i_list(ij));
             const int type_j = neigh_types(ij);
             const int type_ij = type_i*num_types+type_j;
+            // no contribution beyond the tables
+            if (not (r(ij) >= 0.0 and r(ij)/h < num_intervals)) {
+                Kokkos::parallel_for(
+                    Kokkos::TeamVectorRange(team_member, (l_max+1)*num_channels),
+                    [&] (const int lk) {
+                        R0(ij,lk) = 0.0;
+                        R0_deriv(ij,lk) = 0.0;
+                    });
+                return;
+            }
             // compute x, x^2, x^3
-            const int n = static_cast<int>(r(ij)/h); // TODO: bounds checking?
+            const int n = static_cast<int>(r(ij)/h);
             const double x = r(ij) - h*n;
             const double xx = x*x;
             const double xxx = xx*x;
diff --git a/libsymmetrix/source/radial_function_set_kokkos.cpp b/libsymmetrix/source/radial_function_set_kokkos.cpp
index 6ff7126..287e9f4 100644
--- a/libsymmetrix/source/radial_function_set_kokkos.cpp
+++ b/libsymmetrix/source/radial_function_set_kokkos.cpp
@@ -177,10 +177,8 @@ void RadialFunctionSetKokkos<Precision>::evaluate(
             const int type_ij = (type_i <= type_j)
                 ? type_i*(2*num_unique_types-type_i-1)/2 + type_j
                 : type_j*(2*num_unique_types-type_j-1)/2 + type_i;
-            // compute x, x^2, x^3
-            const int n = static_cast<int>(r(ij)/h);
             // no contribution beyond the tables
-            if (r(ij) < 0 || n < 0 || n >= num_radial_nodes-1) {
+            if (not (r(ij) >= 0.0 and r(ij)/h < num_radial_nodes-1)) {
                 Kokkos::parallel_for(
                     Kokkos::TeamVectorRange(team_member, num_functions),
                     [&] (const int k) {
@@ -189,6 +187,8 @@ void RadialFunctionSetKokkos<Precision>::evaluate(
                     });
                 return;
             }
+            // compute x, x^2, x^3
+            const int n = static_cast<int>(r(ij)/h);
             const double x = r(ij) - h*n;
             const double xx = x*x;
             const double xxx = xx*x;
-- 
2.43.0


From eb4e6e813e759be29f88a21efad4bd082a079570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:45 +0000
Subject: [PATCH 19/30] fix: size MACEKokkos monomial tables for monomials of
 any degree

---
 libsymmetrix/source/mace_kokkos.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libsymmetrix/source/mace_kokkos.cpp b/libsymmetrix/source/mace_kokkos.cpp
index 1eb0dde..4e527f3 100644
--- a/libsymmetrix/source/mace_kokkos.cpp
+++ b/libsymmetrix/source/mace_kokkos.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 #include <numbers>
 
@@ -1553,6 +1554,14 @@ double MACEKokkos<Precision>::compute_readouts(int num_nodes, const Kokkos::View
     return energy;
 }
 
+static int max_monomial_size(const std::vector<std::vector<int>>& monomials)
+{
+    size_t size = 0;
+    for (const auto& monomial : monomials)
+        size = std::max(size, monomial.size());
+    return size;
+}
+
 template <typename Precision>
 void MACEKokkos<Precision>::load_from_json(std::string filename)
 {
@@ -1682,7 +1691,7 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
         Kokkos::deep_copy(M0_weights(LM), h_M0_weights_LM);
         M0_monomials(LM) = Kokkos::View<int**,Kokkos::LayoutRight>(
             Kokkos::view_alloc(std::string("M0_monomials_") + std::to_string(LM), Kokkos::WithoutInitializing),
-            M0_monomials_file[std::to_string(LM)].size(), 3);// TODO: hardcoded 3
+            M0_monomials_file[std::to_string(LM)].size(), max_monomial_size(M0_monomials_file[std::to_string(LM)]));
         auto h_M0_monomials_LM = Kokkos::create_mirror_view(M0_monomials(LM));
         Kokkos::deep_copy(h_M0_monomials_LM, -1);
         for (int i=0; i<M0_monomials_file[std::to_string(LM)].size(); ++i) {
@@ -1838,7 +1847,7 @@ void MACEKokkos<Precision>::load_from_json(std::string filename)
                 h_M1_weights(a,k,w) = M1_weights[std::to_string(a)][std::to_string(k)][w];
     Kokkos::deep_copy(this->M1_weights, h_M1_weights);
     auto M1_monomials = file["M1_monomials"].get<std::vector<std::vector<int>>>();
-    Kokkos::resize(this->M1_monomials, num_terms, 3);// TODO: hardcoded 3
+    Kokkos::resize(this->M1_monomials, num_terms, max_monomial_size(M1_monomials));
     auto h_M1_monomials = Kokkos::create_mirror_view(this->M1_monomials);
     Kokkos::deep_copy(h_M1_monomials, -1);
     for (int i=0; i<num_terms; ++i)
-- 
2.43.0


From 80d3b8979d93a72a89737b021d7f1af548958a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:47 +0000
Subject: [PATCH 20/30] fix: read strided inputs and fill or refuse outputs in
 the Kokkos bindings

---
 symmetrix/source/cpp/mace_kokkos.cpp          | 144 +++++++++---------
 .../cpp/multilayer_perceptron_kokkos.cpp      |  20 +--
 .../cpp/multivariate_polynomial_kokkos.cpp    |  32 ++--
 symmetrix/source/cpp/utilities_kokkos.hpp     |  22 ++-
 4 files changed, 116 insertions(+), 102 deletions(-)

diff --git a/symmetrix/source/cpp/mace_kokkos.cpp b/symmetrix/source/cpp/mace_kokkos.cpp
index b7d28d1..748e0fa 100644
--- a/symmetrix/source/cpp/mace_kokkos.cpp
+++ b/symmetrix/source/cpp/mace_kokkos.cpp
@@ -23,7 +23,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_energies);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_energies) {
+            [] (MACEKokkos<Precision>& self, input_array<double> node_energies) {
                 set_kokkos_view(self.node_energies, node_energies);
             })
         // partial forces
@@ -31,19 +31,19 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.node_forces);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> node_forces) {
+            [] (MACEKokkos<Precision>& self, input_array<double> node_forces) {
                 set_kokkos_view(self.node_forces, node_forces);
             })
         // node energies and forces
         .def("compute_node_energies_forces",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_indices,
+                    input_array<int> neigh_types,
+                    input_array<double> xyz,
+                    input_array<double> r) {
                 self.compute_node_energies_forces(
                     num_nodes, 
                     create_kokkos_view("node_types", node_types),
@@ -58,17 +58,17 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R0) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> R0) {
                 const int total_num_neigh = R0.size()/((self.l_max+1)*self.num_channels);
                 set_kokkos_view(self.R0, R0, total_num_neigh, (self.l_max+1)*self.num_channels);
             })
         .def("compute_R0", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_R0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -81,7 +81,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.R1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> R1) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> R1) {
                 const int num_le = self.Phi1_l.size();
                 const int total_num_neigh = R1.size()/(num_le*self.num_channels);
                 set_kokkos_view(self.R1, R1, total_num_neigh, num_le*self.num_channels);
@@ -89,10 +89,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_R1", 
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_R1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -103,7 +103,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         // Y
         .def("compute_Y",
             [] (MACEKokkos<Precision>& self,
-                    py::array_t<double> xyz) {
+                    input_array<double> xyz) {
                 self.compute_Y(
                     create_kokkos_view("xyz", xyz));
             })
@@ -112,7 +112,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> A0) {
                 const int num_nodes = A0.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0, A0, num_nodes, self.num_lm, self.num_channels);
             })
@@ -120,16 +120,16 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A0_adj) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> A0_adj) {
                 const int num_nodes = A0_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A0_adj, A0_adj, num_nodes, self.num_lm, self.num_channels);
             })
         .def("compute_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types) {
                 self.compute_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -139,11 +139,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> xyz,
+                    input_array<double> r) {
                 self.reverse_A0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -155,10 +155,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -169,11 +169,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A0_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> xyz,
+                    input_array<double> r) {
                 self.reverse_A0_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -187,7 +187,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> M0) {
                 const int num_nodes = M0.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0, M0, num_nodes, self.num_LM, self.num_channels);
             })
@@ -195,14 +195,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M0_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M0_adj) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> M0_adj) {
                 const int num_nodes = M0_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.M0_adj, M0_adj, num_nodes, self.num_LM, self.num_channels);
             })
         .def("compute_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    input_array<int> node_types) {
                 self.compute_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -210,7 +210,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M0",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    input_array<int> node_types) {
                 self.reverse_M0(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -220,7 +220,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> H1) {
                 const int num_nodes = H1.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1, H1, num_nodes, self.num_LM, self.num_channels);
             })
@@ -228,7 +228,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> H1_adj) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> H1_adj) {
                 const int num_nodes = H1_adj.size()/(self.num_LM*self.num_channels);
                 set_kokkos_view(self.H1_adj, H1_adj, num_nodes, self.num_LM, self.num_channels);
             })
@@ -239,7 +239,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.Phi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> Phi1) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> Phi1) {
                 const int num_nodes = Phi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.Phi1, Phi1, num_nodes, self.num_lme, self.num_channels);
             })
@@ -247,15 +247,15 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.dPhi1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> dPhi1) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> dPhi1) {
                 const int num_nodes = dPhi1.size()/(self.num_lme*self.num_channels);
                 set_kokkos_view(self.dPhi1, dPhi1, num_nodes, self.num_lme, self.num_channels);
             })
         .def("compute_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types) {
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types) {
                 self.compute_Phi1(
                     num_nodes,
                     create_kokkos_view("num_neigh", num_neigh),
@@ -264,10 +264,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_Phi1",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_indices,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_indices,
+                    input_array<double> xyz,
+                    input_array<double> r,
                     bool zero_dxyz,
                     bool zero_H1_adj) {
                 self.reverse_Phi1(
@@ -284,7 +284,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> A1) {
                 const int num_nodes = A1.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1, A1, num_nodes, self.num_lm, self.num_channels);
             })
@@ -292,7 +292,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.A1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> A1_adj) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> A1_adj) {
                 const int num_nodes = A1_adj.size()/(self.num_lm*self.num_channels);
                 set_kokkos_view(self.A1_adj, A1_adj, num_nodes, self.num_lm, self.num_channels);
             })
@@ -307,10 +307,10 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> r) {
                 self.compute_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -321,11 +321,11 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_A1_scaled",
             [](MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
-                    py::array_t<int> num_neigh,
-                    py::array_t<int> neigh_types,
-                    py::array_t<double> xyz,
-                    py::array_t<double> r) {
+                    input_array<int> node_types,
+                    input_array<int> num_neigh,
+                    input_array<int> neigh_types,
+                    input_array<double> xyz,
+                    input_array<double> r) {
                 self.reverse_A1_scaled(
                     num_nodes,
                     create_kokkos_view("node_types", node_types),
@@ -339,7 +339,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> M1) {
                 const int num_nodes = M1.size()/(self.num_channels);
                 set_kokkos_view(self.M1, M1, num_nodes, self.num_channels);
             })
@@ -347,14 +347,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.M1_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<Precision> M1_adj) {
+            [] (MACEKokkos<Precision>& self, input_array<Precision> M1_adj) {
                 const int num_nodes = M1_adj.size()/(self.num_channels);
                 set_kokkos_view(self.M1_adj, M1_adj, num_nodes, self.num_channels);
             })
         .def("compute_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    input_array<int> node_types) {
                 self.compute_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -362,7 +362,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_M1",
             [] (MACEKokkos<Precision>& self,
                     int num_nodes,
-                    py::array_t<int> node_types) {
+                    input_array<int> node_types) {
                 self.reverse_M1(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -372,7 +372,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2) {
+            [] (MACEKokkos<Precision>& self, input_array<double> H2) {
                 const int num_nodes = H2.size()/self.num_channels;
                 set_kokkos_view(self.H2, H2, num_nodes, self.num_channels);
             })
@@ -380,14 +380,14 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
             [] (MACEKokkos<Precision>& self) {
                 return view2vector(self.H2_adj);
             },
-            [] (MACEKokkos<Precision>& self, py::array_t<double> H2_adj) {
+            [] (MACEKokkos<Precision>& self, input_array<double> H2_adj) {
                 const int num_nodes = H2_adj.size()/self.num_channels;
                 set_kokkos_view(self.H2_adj, H2_adj, num_nodes, self.num_channels);
             })
         .def("compute_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    input_array<int> node_types) {
                 self.compute_H2(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
@@ -395,7 +395,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("reverse_H2",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types,
+                    input_array<int> node_types,
                     bool zero_H1_adj) {
                 self.reverse_H2(
                     num_nodes,
@@ -406,7 +406,7 @@ void bind_mace_kokkos(py::module_ &m, const char* class_name)
         .def("compute_readouts",
             [] (MACEKokkos<Precision>& self,
                     const int num_nodes,
-                    py::array_t<int> node_types) {
+                    input_array<int> node_types) {
                 return self.compute_readouts(
                     num_nodes,
                     create_kokkos_view("node_types", node_types));
diff --git a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
index ab299ad..0161732 100644
--- a/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
+++ b/symmetrix/source/cpp/multilayer_perceptron_kokkos.cpp
@@ -15,8 +15,8 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
         .def(py::init<std::vector<int>,std::vector<std::vector<double>>,double>())
         .def("evaluate",
             [](MultilayerPerceptronKokkos& self,
-                    py::array_t<double> x,
-                    py::array_t<double> f) {
+                    input_array<double> x,
+                    output_array f) {
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
@@ -24,17 +24,17 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
                 auto h_f = Kokkos::View<double*,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
-                                        Kokkos::MemoryUnmanaged>(f.mutable_data(), f.shape(0));
+                                        Kokkos::MemoryUnmanaged>(output_data(f, x.shape(0)), x.shape(0));
                 auto d_x = Kokkos::create_mirror_view_and_copy(Kokkos::DefaultExecutionSpace(), h_x);
                 auto d_f = Kokkos::create_mirror_view_and_copy(Kokkos::DefaultExecutionSpace(), h_f);
                 self.evaluate(d_x, d_f);
                 Kokkos::deep_copy(h_f, d_f);
-            })
+            }, py::arg("x"), py::arg("f").noconvert())
         .def("evaluate_gradient",
             [](MultilayerPerceptronKokkos& self,
-                    py::array_t<double> x,
-                    py::array_t<double> f,
-                    py::array_t<double> g) {
+                    input_array<double> x,
+                    output_array f,
+                    output_array g) {
                 auto h_x = Kokkos::View<const double**,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
@@ -42,17 +42,17 @@ void bind_multilayer_perceptron_kokkos(py::module_ &m)
                 auto h_f = Kokkos::View<double*,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
-                                        Kokkos::MemoryUnmanaged>(f.mutable_data(), f.shape(0));
+                                        Kokkos::MemoryUnmanaged>(output_data(f, x.shape(0)), x.shape(0));
                 auto h_g = Kokkos::View<double**,
                                         Kokkos::LayoutRight,
                                         Kokkos::HostSpace,
-                                        Kokkos::MemoryUnmanaged>(g.mutable_data(), g.shape(0), g.shape(1));
+                                        Kokkos::MemoryUnmanaged>(output_data(g, x.shape(0)*x.shape(1)), x.shape(0), x.shape(1));
                 auto d_x = Kokkos::create_mirror_view_and_copy(Kokkos::DefaultExecutionSpace(), h_x);
                 auto d_f = Kokkos::create_mirror_view(Kokkos::DefaultExecutionSpace(), h_f);
                 auto d_g = Kokkos::create_mirror_view(Kokkos::DefaultExecutionSpace(), h_g);
                 self.evaluate_gradient(d_x, d_f, d_g);
                 Kokkos::deep_copy(h_f, d_f);
                 Kokkos::deep_copy(h_g, d_g);
-            })
+            }, py::arg("x"), py::arg("f").noconvert(), py::arg("g").noconvert())
         ;
 }
diff --git a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
index dc8ff8d..00012a0 100644
--- a/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
+++ b/symmetrix/source/cpp/multivariate_polynomial_kokkos.cpp
@@ -15,37 +15,37 @@ void bind_multivariate_polynomial_kokkos(py::module_ &m)
         .def(py::init<int,std::vector<double>,std::vector<std::vector<int>>>())
         .def("evaluate",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x) {
+                input_array<double> x) {
                     return self.evaluate(create_kokkos_view("x", x));
                 })
         .def("evaluate_simple",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x) {
+                input_array<double> x) {
                     return self.evaluate_simple(create_kokkos_view("x", x));
                 })
         .def("evaluate_gradient",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x,
-                py::array_t<double> g) {
-                    Kokkos::View<double*> g_view("g", g.size());
-                    set_kokkos_view(g_view, g);
+                input_array<double> x,
+                output_array g) {
+                    auto g_data = output_data(g, self.num_variables);
+                    Kokkos::View<double*> g_view("g", self.num_variables);
                     auto f = self.evaluate_gradient(create_kokkos_view("x", x), g_view);
                     auto g_vector = view2vector(g_view);
-                    for (int i=0; i<g.size(); ++i)
-                        g.mutable_data()[i] = g_vector[i];
+                    for (int i=0; i<self.num_variables; ++i)
+                        g_data[i] = g_vector[i];
                     return f;
-                })
+                }, py::arg("x"), py::arg("g").noconvert())
         .def("evaluate_gradient_simple",
             [] (MultivariatePolynomialKokkos& self,
-                py::array_t<const double> x,
-                py::array_t<double> g) {
-                    Kokkos::View<double*> g_view("g", g.size());
-                    set_kokkos_view(g_view, g);
+                input_array<double> x,
+                output_array g) {
+                    auto g_data = output_data(g, self.num_variables);
+                    Kokkos::View<double*> g_view("g", self.num_variables);
                     auto f = self.evaluate_gradient_simple(create_kokkos_view("x", x), g_view);
                     auto g_vector = view2vector(g_view);
-                    for (int i=0; i<g.size(); ++i)
-                        g.mutable_data()[i] = g_vector[i];
+                    for (int i=0; i<self.num_variables; ++i)
+                        g_data[i] = g_vector[i];
                     return f;
-                })
+                }, py::arg("x"), py::arg("g").noconvert())
         ;
 }
diff --git a/symmetrix/source/cpp/utilities_kokkos.hpp b/symmetrix/source/cpp/utilities_kokkos.hpp
index ada4de5..16ee6da 100644
--- a/symmetrix/source/cpp/utilities_kokkos.hpp
+++ b/symmetrix/source/cpp/utilities_kokkos.hpp
@@ -11,10 +11,24 @@
 
 namespace py = pybind11;
 
+// arguments are read as contiguous memory, so other layouts are converted first
+template<typename T>
+using input_array = py::array_t<T,py::array::c_style|py::array::forcecast>;
+
+// results are written in place, so only a writable C-contiguous array of doubles will do
+using output_array = py::array_t<double,py::array::c_style>;
+
+inline double* output_data(output_array& array, py::ssize_t size)
+{
+    if (array.size() < size)
+        throw std::invalid_argument("Output array is too small for the results.");
+    return array.mutable_data();
+}
+
 template<typename T>
 Kokkos::View<const T*> create_kokkos_view(
     std::string label,
-    py::array_t<T> array)
+    input_array<T> array)
 {
     return create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -25,7 +39,7 @@ Kokkos::View<const T*> create_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T*>& view,
-    py::array_t<T> array)
+    input_array<T> array)
 {
     auto d_array = Kokkos::create_mirror_view_and_copy(
         Kokkos::DefaultExecutionSpace(),
@@ -40,7 +54,7 @@ void set_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T**,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    input_array<T> array,
     const int N0,
     const int N1)
 {
@@ -58,7 +72,7 @@ void set_kokkos_view(
 template<typename T>
 void set_kokkos_view(
     Kokkos::View<T***,Kokkos::LayoutRight>& view,
-    py::array_t<T> array,
+    input_array<T> array,
     const int N0,
     const int N1,
     const int N2)
-- 
2.43.0


From 46a5f42377caf0079dd62db15dad254d1d9e08bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:47 +0000
Subject: [PATCH 21/30] fix: report one energy per atom in the ASE calculator
 after larger structures

---
 symmetrix/source/symmetrix/symmetrix_calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symmetrix/source/symmetrix/symmetrix_calc.py b/symmetrix/source/symmetrix/symmetrix_calc.py
index c110e43..787f33a 100755
--- a/symmetrix/source/symmetrix/symmetrix_calc.py
+++ b/symmetrix/source/symmetrix/symmetrix_calc.py
@@ -83,8 +83,9 @@ class Symmetrix(Calculator):
         self.evaluator.compute_node_energies_forces(
             num_nodes, node_types, num_neigh, j_list, neigh_types, xyz.flatten(), r)
 
-        self.results['energy'] = self.results['free_energy'] = np.sum(self.evaluator.node_energies)
-        self.results['energies'] = np.asarray(self.evaluator.node_energies)
+        node_energies = np.asarray(self.evaluator.node_energies)[:num_nodes]  # may be a larger container, as below
+        self.results['energy'] = self.results['free_energy'] = np.sum(node_energies)
+        self.results['energies'] = node_energies
 
         pair_forces = np.asarray(self.evaluator.node_forces).reshape((-1, 3))
         pair_forces = pair_forces[:len(i_list), :]  # currently, `evaluator.node_forces` is a container
-- 
2.43.0


From a53889746dade5833cd4038d3e3d242cde8826d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:28 +0000
Subject: [PATCH 22/30] fix: keep unused elements of the derivs output in
 CubicSplineSetKokkos

---
 libsymmetrix/source/cubic_spline_set_kokkos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsymmetrix/source/cubic_spline_set_kokkos.cpp b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
index 249ab60..90d0611 100644
--- a/libsymmetrix/source/cubic_spline_set_kokkos.cpp
+++ b/libsymmetrix/source/cubic_spline_set_kokkos.cpp
@@ -263,7 +263,7 @@ void CubicSplineSetKokkos::evaluate_derivs(
 
     // copy to device side view
     Kokkos::deep_copy(test_view_values,h_test_view_values);
-    Kokkos::deep_copy(test_view_values,h_test_view_values);
+    Kokkos::deep_copy(test_view_derivs,h_test_view_derivs);
 
     evaluate_derivs(
         r,
-- 
2.43.0


From 0dda6d089abf607b2aacf89636a89ea8bad5ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 23/30] fix: map any number of LAMMPS types in
 symmetrix/mace/kk and refuse elements absent from the model

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index ae555e1..c2fea8e 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -138,7 +138,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
   utils::logmesg(lmp, "success\n");
 
   // extract atomic numbers from pair_coeff
-  mace_types = Kokkos::View<int*>("mace_types", mace->atomic_numbers.size());
+  mace_types = Kokkos::View<int*>("mace_types", narg-3);
   auto h_mace_types = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace_types);
   auto h_mace_atomic_numbers = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), mace->atomic_numbers);
   for (int i=3; i<narg; ++i) {
@@ -152,6 +152,8 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
     for (int j=0; j<mace->atomic_numbers.size(); ++j)
         if (h_mace_atomic_numbers(j) == atomic_number)
             mace_index = j;
+    if (mace_index == -1)
+      error->all(FLERR, "Problem matching LAMMPS types to MACE types.");
     utils::logmesg(lmp, "  mapping LAMMPS type {} ({}) to MACEKokkos type {}\n",
                    i-2, arg[i], mace_index);
     h_mace_types(i-3) = mace_index;
-- 
2.43.0


From 564c5d8fc07f4a85d4b937fed306418f6f10767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:05 +0000
Subject: [PATCH 24/30] fix: refuse pair_coeff commands that do not name one
 element per atom type

---
 pair_symmetrix/pair_symmetrix_mace.cpp        | 3 +++
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index f16cf66..6ec128b 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -114,6 +114,9 @@ void PairSymmetrixMACE::settings(int narg, char **arg)
 
 void PairSymmetrixMACE::coeff(int narg, char **arg)
 {
+  if (narg != 3 + atom->ntypes)
+    error->all(FLERR, "pair_coeff for symmetrix/mace needs a model file and one element per atom type");
+
   if (!allocated) allocate();
 
   utils::logmesg(lmp, "Loading MACE model from \'{}\' ... ", arg[2]);
diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index c2fea8e..7842f90 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -131,6 +131,9 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::settings(int narg, char **a
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
 {
+  if (narg != 3 + atom->ntypes)
+    error->all(FLERR, "pair_coeff for symmetrix/mace/kk needs a model file and one element per atom type");
+
   if (!allocated) allocate();
 
   utils::logmesg(lmp, "Loading MACEKokkos model from \'{}\' ... ", arg[2]);
-- 
2.43.0


From 738775325f32949333e0038d805413f7b37d4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:34 +0000
Subject: [PATCH 25/30] fix: keep the other atoms' features when
 symmetrix/mace/kk unpacks messages on the host

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 7842f90..d46b59b 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -266,7 +266,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_forward_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_forward_comm(int n, int first, double *buf)
 {
-  auto h_H1 = Kokkos::create_mirror_view(H1);
+  auto h_H1 = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1);
   for (int i=0; i<n; ++i) {
     for (int LM=0; LM<mace->num_LM; ++LM) {
       for (int k=0; k<mace->num_channels; ++k) {
@@ -301,8 +301,6 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_forward_comm_kokkos(
 template<class DeviceType, typename Precision>
 int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_reverse_comm(int n, int first, double *buf)
 {
-  // TODO: for some reason this does not work as expected, causing problems
-  //       for GPU simulations called with -pk kokkos comm/pair/reverse no
   auto h_H1_adj = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1_adj);
   for (int i=0; i<n; ++i) {
     for (int LM=0; LM<mace->num_LM; ++LM) {
@@ -338,7 +336,7 @@ int PairSymmetrixMACEKokkos<DeviceType, Precision>::pack_reverse_comm_kokkos(
 template<class DeviceType, typename Precision>
 void PairSymmetrixMACEKokkos<DeviceType, Precision>::unpack_reverse_comm(int n, int *list, double *buf)
 {
-  auto h_H1_adj = Kokkos::create_mirror_view(H1_adj);
+  auto h_H1_adj = Kokkos::create_mirror_view_and_copy(Kokkos::HostSpace(), H1_adj);
   for (int ii=0; ii<n; ++ii) {
     const int i = list[ii];
     for (int LM=0; LM<mace->num_LM; ++LM) {
-- 
2.43.0


From d85490a984b21b5728ffaaa1d4e5449b72f02f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:50 +0000
Subject: [PATCH 26/30] fix: report this step's per-atom energies on the host
 in symmetrix/mace/kk

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index d46b59b..2131934 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -378,7 +378,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {  // reallocated, hence zeroed, for every step
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -510,6 +510,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -594,7 +595,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {  // reallocated, hence zeroed, for every step
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -776,6 +777,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
@@ -861,7 +863,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
 {
   ev_init(eflag, vflag, 0);
 
-  if (eflag_atom && k_eatom.view<DeviceType>().extent(0)<maxeatom) {
+  if (eflag_atom) {  // reallocated, hence zeroed, for every step
      memoryKK->destroy_kokkos(k_eatom,eatom);
      memoryKK->create_kokkos(k_eatom,eatom,maxeatom,"pair:eatom");
   }
@@ -1104,6 +1106,7 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
         d_eatom(ii) += node_energies(ii);
     });
     k_eatom.modify<DeviceType>();
+    k_eatom.sync_host();
   }
 
   auto mace_node_forces = mace->node_forces;
-- 
2.43.0


From 350c228e5cc41a943eb5a692d678c88c1a2eaf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:05 +0000
Subject: [PATCH 27/30] fix: refuse to extract models with another correlation
 order or readout activation

---
 symmetrix/source/symmetrix/extract_mace_data.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symmetrix/source/symmetrix/extract_mace_data.py b/symmetrix/source/symmetrix/extract_mace_data.py
index 143c878..0712e59 100755
--- a/symmetrix/source/symmetrix/extract_mace_data.py
+++ b/symmetrix/source/symmetrix/extract_mace_data.py
@@ -89,6 +89,16 @@ def extract_mace_data(model, species, head=None, num_spline_points=256):
     if (model.spherical_harmonics._lmax != 3):
         raise RuntimeError("Currently, symmetrix only supports MACE models with l_max=3.")
 
+    if any(contraction.correlation != 3
+           for product in model.products
+           for contraction in product.symmetric_contractions.contractions):
+        raise RuntimeError("Currently, symmetrix only supports MACE models with correlation=3.")
+
+    readout_act = model.readouts[1].non_linearity.acts[0]
+    x = torch.linspace(-3, 3, 7, dtype=torch.float64)
+    if not torch.allclose(readout_act(x), readout_act.cst*torch.nn.functional.silu(x)):
+        raise RuntimeError("Currently, symmetrix only supports MACE models with a silu readout.")
+
     ### ----- HELPER FUNCTION -----
 
     def linear_simplify(linear):
-- 
2.43.0


From 482d678321b5fe5703bbf1fe289465d71ce54d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 28/30] fix: size pair style messages for the mode and model in
 use after pair_style or pair_coeff is repeated

---
 pair_symmetrix/pair_symmetrix_mace.cpp        | 20 +++++++++----------
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 18 ++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace.cpp b/pair_symmetrix/pair_symmetrix_mace.cpp
index 6ec128b..22ddebc 100644
--- a/pair_symmetrix/pair_symmetrix_mace.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace.cpp
@@ -40,7 +40,7 @@ PairSymmetrixMACE::PairSymmetrixMACE(LAMMPS *lmp)
   manybody_flag = 1;
   no_virial_fdotr_compute = 1;
   // WARNING: for mace, these variables are model-dependent, so i 
-  //          reset them after the model is loaded (in coeff).
+  //          reset them after the model is loaded (in init_style).
   //          however, i can't make them zero here, because that 
   //          confusingly yields seg faults with hybrid/overlay.
   //          so, i set them to a fairly big number here and hope.
@@ -141,15 +141,6 @@ void PairSymmetrixMACE::coeff(int narg, char **arg)
     mace_types.push_back(mace_index);
   }
 
-  // set message size
-  if (mode == "mpi_message_passing") {
-    comm_forward = mace->num_LM*mace->num_channels;
-    comm_reverse = mace->num_LM*mace->num_channels;
-  } else {
-    comm_forward = 0;
-    comm_reverse = 0;
-  }
-
   for (int i=1; i<atom->ntypes+1; i++)
     for (int j=i; j<atom->ntypes+1; j++)
       setflag[i][j] = 1;
@@ -175,6 +166,15 @@ void PairSymmetrixMACE::init_style()
   if (atom->map_user == atom->MAP_NONE) error->all(FLERR, "symmetrix/mace requires \'atom_modify map [yes|array|hash]\'");
   if (force->newton_pair == 0) error->all(FLERR, "symmetrix/mace requires newton pair on");
 
+  // set message size (here, as both pair_style and pair_coeff may be repeated)
+  if (mode == "mpi_message_passing") {
+    comm_forward = mace->num_LM*mace->num_channels;
+    comm_reverse = mace->num_LM*mace->num_channels;
+  } else {
+    comm_forward = 0;
+    comm_reverse = 0;
+  }
+
   if (mode == "no_domain_decomposition" or mode == "mpi_message_passing") {
     neighbor->add_request(this, NeighConst::REQ_FULL);
   } else {
diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 2131934..1b92031 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -163,15 +163,6 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::coeff(int narg, char **arg)
   }
   Kokkos::deep_copy(mace_types, h_mace_types);
 
-  // set message size
-  if (mode == "mpi_message_passing") {
-    comm_forward = mace->num_LM*mace->num_channels;
-    comm_reverse = mace->num_LM*mace->num_channels;
-  } else {
-    comm_forward = 0;
-    comm_reverse = 0;
-  }
-
   for (int i=1; i<atom->ntypes+1; i++)
     for (int j=i; j<atom->ntypes+1; j++)
       setflag[i][j] = 1;
@@ -199,6 +190,15 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::init_style()
   if (atom->map_user == atom->MAP_NONE) error->all(FLERR, "symmetrix/mace/kk requires \'atom_modify map [yes|array|hash]\'");
   if (force->newton_pair == 0) error->all(FLERR, "symmetrix/mace/kk requires newton pair on");
 
+  // set message size (here, as both pair_style and pair_coeff may be repeated)
+  if (mode == "mpi_message_passing") {
+    comm_forward = mace->num_LM*mace->num_channels;
+    comm_reverse = mace->num_LM*mace->num_channels;
+  } else {
+    comm_forward = 0;
+    comm_reverse = 0;
+  }
+
   if (mode == "no_domain_decomposition" or mode == "mpi_message_passing") {
     auto request = neighbor->add_request(this, NeighConst::REQ_FULL);
     request->set_kokkos_host(std::is_same_v<DeviceType,LMPHostType> &&
-- 
2.43.0


From 2b8774a25a5dca5a9734f3884c9ca71f908d1dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 29/30] fix: reshape symmetrix/mace/kk features when another
 model is loaded

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index 1b92031..c5df498 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -717,7 +717,8 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
   mace->compute_H1(num_nodes);
 
   // sort H1 contributions by i (rather than ii)
-  if (H1.extent(0) < k_list->inum+atom->nghost)
+  if (H1.extent(0) < k_list->inum+atom->nghost
+      or H1.extent(1) != mace->num_LM or H1.extent(2) != mace->num_channels)
     Kokkos::realloc(H1, (k_list->inum+atom->nghost), mace->num_LM, mace->num_channels);
   auto num_LM = mace->num_LM;
   auto num_channels = mace->num_channels;
-- 
2.43.0


From f00c95ceefc0129dc1cb7514893faf918d27e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:22 +0000
Subject: [PATCH 30/30] fix: write per-node data of symmetrix/mace/kk from one
 thread of each team

---
 pair_symmetrix/pair_symmetrix_mace_kokkos.cpp | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
index c5df498..0a2ed7d 100644
--- a/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
+++ b/pair_symmetrix/pair_symmetrix_mace_kokkos.cpp
@@ -416,11 +416,14 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
     KOKKOS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
       const int ii = team_member.league_rank();
       const int i = d_ilist(ii);
-      node_indices(ii) = i;
-      node_types(ii) = mace_types(type(i)-1);
+      Kokkos::single(Kokkos::PerTeam(team_member), [&]() {
+        node_indices(ii) = i;
+        node_types(ii) = mace_types(type(i)-1);
+      });
       const double x_i = x(i,0);
       const double y_i = x(i,1);
       const double z_i = x(i,2);
+      int num_neigh_i;
       Kokkos::parallel_reduce(
         Kokkos::TeamThreadRange(team_member, d_numneigh(i)),
         [&] (const int jj, int& num_neigh_ii) {
@@ -432,7 +435,10 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_domain_decomposi
           if (r_squared < r_cut_squared) {
             num_neigh_ii += 1;
           }
-        }, num_neigh(ii));
+        }, num_neigh_i);
+      Kokkos::single(Kokkos::PerTeam(team_member), [&]() {
+        num_neigh(ii) = num_neigh_i;
+      });
     });
 
   // count edges
@@ -626,11 +632,14 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
     KOKKOS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
       const int ii = team_member.league_rank();
       const int i = d_ilist(ii);
-      node_indices(ii) = i;
-      node_types(ii) = mace_types(type(i)-1);
+      Kokkos::single(Kokkos::PerTeam(team_member), [&]() {
+        node_indices(ii) = i;
+        node_types(ii) = mace_types(type(i)-1);
+      });
       const double x_i = x(i,0);
       const double y_i = x(i,1);
       const double z_i = x(i,2);
+      int num_neigh_i;
       Kokkos::parallel_reduce(
         Kokkos::TeamThreadRange(team_member, d_numneigh(i)),
         [&] (const int jj, int& num_neigh_ii) {
@@ -642,7 +651,10 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_mpi_message_passing
           if (r_squared < r_cut_squared) {
             num_neigh_ii += 1;
           }
-        }, num_neigh(ii));
+        }, num_neigh_i);
+      Kokkos::single(Kokkos::PerTeam(team_member), [&]() {
+        num_neigh(ii) = num_neigh_i;
+      });
     });
 
   // count edges
@@ -945,11 +957,14 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
     KOKKOS_LAMBDA (Kokkos::TeamPolicy<>::member_type team_member) {
       const int ii = team_member.league_rank();
       const int i = (ii<num_local_nodes) ? d_ilist(ii) : ghost_indices(ii-num_local_nodes);
-      node_indices(ii) = i;
-      node_types(ii) = mace_types(type(i)-1);
+      Kokkos::single(Kokkos::PerTeam(team_member), [&]() {
+        node_indices(ii) = i;
+        node_types(ii) = mace_types(type(i)-1);
+      });
       const double x_i = x(i,0);
       const double y_i = x(i,1);
       const double z_i = x(i,2);
+      int num_neigh_i;
       Kokkos::parallel_reduce(
         Kokkos::TeamThreadRange(team_member, d_numneigh(i)),
         [&] (const int jj, int& num_neigh_ii) {
@@ -960,7 +975,10 @@ void PairSymmetrixMACEKokkos<DeviceType, Precision>::compute_no_mpi_message_pass
           const double r_squared = dx*dx + dy*dy + dz*dz;
           if (r_squared < r_cut_squared)
             num_neigh_ii += 1;
-        }, num_neigh(ii));
+        }, num_neigh_i);
+      Kokkos::single(Kokkos::PerTeam(team_member), [&]() {
+        num_neigh(ii) = num_neigh_i;
+      });
     });
   Kokkos::fence();
 
-- 
2.43.0

