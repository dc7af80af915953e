From a7b89238a130a20ebe91dc08156c6c04297835f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:57 +0000
Subject: [PATCH 01/24] fix: set every inner control point when elevating a
 Bezier segment

The loop stopped one point early, so the control point with index p of every
elevated segment stayed at its default (zero weight) and became NaN.
---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..a6afa81 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j <= GetDegree(dimension).get(); ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From f553bb118fecbbb85084ef066b16e10f55be0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 02/24] fix: reject an empty list of control points instead of
 reading its first entry

---
 src/spl/physical_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 5814e76..9ad2bdc 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -30,7 +30,7 @@ class PhysicalSpace {
   PhysicalSpace() = default;
   virtual ~PhysicalSpace() = default;
   PhysicalSpace(const std::vector<baf::ControlPoint> &control_points, std::array<int, DIM> number_of_points)
-      : dimension_(control_points[0].GetDimension()), number_of_points_(number_of_points) {
+      : dimension_(control_points.empty() ? 0 : control_points[0].GetDimension()), number_of_points_(number_of_points) {
     uint64_t total_number_of_points = 1;
     for (int dim = 0; dim < DIM; dim++) {
       total_number_of_points *= number_of_points[dim];
-- 
2.43.0


From 007c66283e3e10fe4be8b52a13defd07aeefb657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:19 +0000
Subject: [PATCH 03/24] fix: RemoveKnot must not remove other knots once the
 given knot is gone

---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index a6afa81..4845cbc 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -188,7 +188,7 @@ class Spline {
 
   size_t RemoveKnot(ParamCoord knot, int dimension, double tolerance, size_t multiplicity = 1) {
     size_t count = 0;
-    for (; count < multiplicity; ++count) {
+    for (; count < multiplicity && GetKnotVector(dimension)->GetMultiplicity(knot) > 0; ++count) {
       KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
       Degree degree = GetDegree(dimension);
       auto last = knot_span.get() - GetKnotVector(dimension)->GetMultiplicity(knot);
-- 
2.43.0


From 93901b36dd3dfa6550cab0a34e5cab34a16f833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 04/24] fix: refuse NURBS knot removal when a new weight
 vanishes

The distances were NaN then, the knot counted as removable and the control
points became NaN.
---
 src/spl/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..2be18df 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -418,7 +418,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
@@ -429,7 +429,7 @@ class NURBS : public Spline<DIM> {
         temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
         temp2[this->GetPointDim()] =
             alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
           return false;
         }
       }
-- 
2.43.0


From 260f62a9fb06d105f555d1dfa2113f213ea9b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:13 +0000
Subject: [PATCH 05/24] fix: check the remaining control point in knot removal
 even if its neighbours coincide

With an odd number of affected control points the middle one was never
compared when the two points next to it were within the tolerance, so e.g.
the peak of a polyline A, B, A was removed for every tolerance.
---
 src/spl/b_spline.h | 2 +-
 src/spl/nurbs.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..681c57a 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -222,7 +222,7 @@ class BSpline : public Spline<DIM> {
         temp1[k] = temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 2be18df..51fc52d 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -418,7 +418,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
+      if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From 4078687440e3db5dc3e5549a02d41f92a1c31386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:11 +0000
Subject: [PATCH 06/24] fix: RemoveBezierKnots lost track of the knots once one
 of them vanished

After the last copy of a knot was removed (degree reduction), the index pointed
to the next knot, so knots were skipped or removed too often and entries behind
the end of the knot vector were read.
---
 src/spl/spline.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 4845cbc..8976eb1 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -309,14 +309,11 @@ class Spline {
   }
 
   void RemoveBezierKnots(std::vector<int> diff, int dimension) {
-    auto current_knot = GetDegree(dimension).get() + 1;
-    for (int current_knot_span = 0; current_knot_span < GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 2;
-         ++current_knot_span, ++current_knot) {
-      RemoveKnot(GetKnotVector(dimension)->GetKnot(current_knot), dimension,
-                 util::NumericSettings<double>::kEpsilon(), static_cast<size_t>(diff[current_knot_span]));
-      while (GetKnotVector(dimension)->GetKnot(current_knot) == GetKnotVector(dimension)->GetKnot(current_knot + 1)) {
-        ++current_knot;
-      }
+    std::vector<ParamCoord> unique_knots(GetKnotVector(dimension)->GetNumberOfDifferentKnots());
+    std::unique_copy(GetKnotVector(dimension)->begin(), GetKnotVector(dimension)->end(), unique_knots.begin());
+    for (size_t current_knot = 0; current_knot < diff.size(); ++current_knot) {
+      RemoveKnot(unique_knots[current_knot + 1], dimension, util::NumericSettings<double>::kEpsilon(),
+                 static_cast<size_t>(diff[current_knot]));
     }
   }
 
-- 
2.43.0


From 9b22ad551f37865d359fa839bbb268aeb6a5b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:08 +0000
Subject: [PATCH 07/24] fix: removing a knot of multiplicity p+1 read past the
 end of its work arrays

SudivideSpline leaves such knots in the split spline. Only the two control
points next to the knot are affected, there is nothing else to compare.
---
 src/spl/b_spline.h | 3 ++-
 src/spl/nurbs.h    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 681c57a..d59e1b6 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -81,7 +81,7 @@ class BSpline : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling.empty() ? 0.0 : scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -223,6 +223,7 @@ class BSpline : public Spline<DIM> {
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
       if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (j < off + 1) return false;  // a knot of multiplicity p + 1 affects only these two points
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 51fc52d..0b5ca77 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -94,7 +94,7 @@ class NURBS : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, temp_w, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling.empty() ? 0.0 : scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -419,6 +419,7 @@ class NURBS : public Spline<DIM> {
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
       if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
+        if (j < off + 1) return false;  // a knot of multiplicity p + 1 affects only these two points
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From 283c93dbc047f94522b8ce2fc0c79c436a18a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:36 +0000
Subject: [PATCH 08/24] fix: AreGeometricallyEqual must sample the knot vector
 range of the spline

It sampled from 0 to the length of the range, which is wrong and usually
throws when the first knot is not 0, and could exceed the last knot by
rounding.
---
 src/spl/spline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 8976eb1..c9b3f21 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -108,8 +108,9 @@ class Spline {
     for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
       std::array<ParamCoord, DIM> param_coord;
       for (int dim = 0; dim < DIM; ++dim) {
-        double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        double first_knot = GetKnotVector(dim)->GetKnot(0).get(), last_knot = GetKnotVector(dim)->GetLastKnot().get();
+        param_coord[dim] = ParamCoord(std::min(first_knot + (last_knot - first_knot) / number * point_handler[dim],
+                                               last_knot));
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
       std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-- 
2.43.0


From 86417ee553474fde17f9e679a526256ab4d3d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:36 +0000
Subject: [PATCH 09/24] fix: splines that evaluate to NaN are not geometrically
 equal

---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index c9b3f21..eb57241 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -114,7 +114,7 @@ class Spline {
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
       std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-      if (util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) > tolerance) {
+      if (!(util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) <= tolerance)) {
         return false;
       }
     }
-- 
2.43.0


From d6189774ad9b3a9f7f69f998d4b4c87f17cfc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:29 +0000
Subject: [PATCH 10/24] fix: keep VTK sample parameters inside the knot range
 despite rounding

---
 src/io/vtk_writer_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/vtk_writer_utils.h b/src/io/vtk_writer_utils.h
index e9d165d..c735eb6 100644
--- a/src/io/vtk_writer_utils.h
+++ b/src/io/vtk_writer_utils.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_IO_VTK_WRITER_UTILS_H_
 #define SRC_IO_VTK_WRITER_UTILS_H_
 
+#include <algorithm>
 #include <array>
 #include <fstream>
 
@@ -56,7 +57,8 @@ class VTKWriterUtils {
     for (int i = 0; i < point_handler.Get1DLength(); ++point_handler, ++i) {
       std::array<ParamCoord, DIM> coords{};
       for (int j = 0; j < DIM; ++j) {
-        coords[j] = ParamCoord(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
+        double coord = knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j];
+        coords[j] = ParamCoord(std::min(coord, knots[j + DIM]));
       }
       for (int k = 0; k < 3; ++k) {
         file << (k < spline_ptr->GetPointDim() ? spline_ptr->Evaluate(coords, {k})[0] : 0) << (k < 2 ? " " : "\n");
-- 
2.43.0


From 62f7f32d4e327b15320c5f07782ab6f1bcdfa1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:40 +0000
Subject: [PATCH 11/24] fix: StringToDouble misread exponents without decimal
 point and rejected a leading plus

---
 src/util/string_operations.h | 37 +++++++++---------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index acda5b9..0d21ad4 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -16,8 +16,9 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_UTIL_STRING_OPERATIONS_H_
 
 #include <algorithm>
-#include <cmath>
+#include <cstdlib>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -85,34 +86,14 @@ class StringOperations {
     return s;
   }
 
-  static double StringToDouble(std::string string) {
-    int sign = 1;
-    if (string[0] == '-') {
-      sign = -1;
-      string.erase(0, 1);
+  static double StringToDouble(const std::string &string) {
+    char *end_of_number = nullptr;
+    double result = std::strtod(string.c_str(), &end_of_number);
+    if (string.empty() || string.find_first_not_of("+-.0123456789Ee") != std::string::npos
+        || end_of_number != string.c_str() + string.length()) {
+      throw std::invalid_argument("\"" + string + "\" can not be converted to a number.");
     }
-    std::size_t found = string.find_first_of('.');
-    std::size_t exponent = string.find_first_of("Ee");
-    std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
-    double result = 0;
-    double factor = pow(10, found != std::string::npos ? found - 1 : string.length() - 1);
-    for (auto i = 0u; i <= end_of_number; ++i) {
-      if (i != found) {
-        result += std::stoi(string.substr(i, 1)) * factor;
-        factor /= 10;
-      }
-    }
-    if (exponent != std::string::npos) {
-      if (string[exponent + 1] == '-') {
-        factor = -1;
-        ++exponent;
-      } else if (string[exponent + 1] == '+') {
-        ++exponent;
-      }
-      int potency = std::stoi(string.substr(exponent + 1, string.length() - exponent));
-      result *= factor != -1 ? pow(10, potency) : 1 / pow(10, potency);
-    }
-    return sign * result;
+    return result;
   }
 };
 }  // namespace util
-- 
2.43.0


From 1241198ea21a354d8f7d10725b1bce34c968d2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:40 +0000
Subject: [PATCH 12/24] fix: EndsWith failed for repeated endings and accepted
 strings shorter than the ending

---
 src/io/executables/converter_log.cc | 9 +++++++--
 src/io/executables/converter_log.h  | 1 +
 src/util/string_operations.h        | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index cde04c9..fc7d4d9 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -39,7 +39,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfSection(line)) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -49,7 +49,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfSection(line)) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
@@ -128,6 +128,11 @@ std::string io::ConverterLog::GetTime() const {
   return asctime(&timeinfo);
 }
 
+bool io::ConverterLog::IsEndOfSection(const std::string &line) const {
+  std::string trimmed_line = util::StringOperations::trim(line);
+  return trimmed_line.empty() || util::StringOperations::EndsWith(trimmed_line, ":");
+}
+
 bool io::ConverterLog::OneSpline() const {
   return written_.size() == 1;
 }
diff --git a/src/io/executables/converter_log.h b/src/io/executables/converter_log.h
index 0834c5f..456f8b4 100644
--- a/src/io/executables/converter_log.h
+++ b/src/io/executables/converter_log.h
@@ -33,6 +33,7 @@ class ConverterLog {
 
  private:
   std::string GetTime() const;
+  bool IsEndOfSection(const std::string &line) const;
   bool OneSpline() const;
 
   const char *log_file_;
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 0d21ad4..b788ff3 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -73,7 +73,8 @@ class StringOperations {
   }
 
   static bool EndsWith(const std::string &string, const std::string &end_of_string) {
-    return string.find(end_of_string) == string.length() - end_of_string.length();
+    return string.length() >= end_of_string.length()
+        && string.compare(string.length() - end_of_string.length(), end_of_string.length(), end_of_string) == 0;
   }
 
   static inline std::string trim(std::string s) {
-- 
2.43.0


From ed2168e617396a3fd47fcc402b4503653dc26776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:02 +0000
Subject: [PATCH 13/24] fix: ConverterLog lost a section directly following the
 options or scattering section

---
 src/io/executables/converter_log.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index fc7d4d9..9578221 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -31,7 +31,9 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
     throw std::runtime_error("Log file could not be opened.");
   }
   std::string line;
-  while (getline(log, line)) {
+  bool line_belongs_to_next_section = false;
+  while (line_belongs_to_next_section || getline(log, line)) {
+    line_belongs_to_next_section = false;
     if (util::StringOperations::StartsWith(line, "input:")) {
       getline(log, input_);
     }
@@ -39,7 +41,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !IsEndOfSection(line)) {
+      while (getline(log, line) && !(line_belongs_to_next_section = IsEndOfSection(line))) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -47,9 +49,8 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
         }
         positions_.push_back(std::stoi(line));
       }
-    }
-    if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !IsEndOfSection(line)) {
+    } else if (util::StringOperations::StartsWith(line, "scattering:")) {
+      while (getline(log, line) && !(line_belongs_to_next_section = IsEndOfSection(line))) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
-- 
2.43.0


From dcbb75499f08e26bc88ef7df8e1bbcded9183fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:02 +0000
Subject: [PATCH 14/24] fix: repeated conversions must not accumulate the
 written positions

---
 src/io/executables/converter_log.cc | 2 ++
 src/io/io_converter.cc              | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 9578221..122a37b 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -67,6 +67,8 @@ const char *io::ConverterLog::GetOutput() const {
 }
 
 std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positions) {
+  written_.clear();
+  not_written_.clear();
   if (positions_[0] == -1) {
     written_ = possible_positions;
   } else {
diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..b71f15a 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -97,6 +97,7 @@ void io::IOConverter::WriteFile(const std::vector<std::any> &splines, const std:
 
 void io::IOConverter::GetPositions(const std::vector<int> &positions,
                                    const std::vector<int> &possible_positions) {
+  written_.clear();
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
-- 
2.43.0


From d7a3b5efeca86432bbd50f351dc069b070ae4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:43 +0000
Subject: [PATCH 15/24] fix: reject unsorted and constant knot vectors instead
 of evaluating out of bounds

---
 src/spl/parameter_space.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index e0b6395..366d1c5 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -212,6 +212,12 @@ class ParameterSpace {
       if (static_cast<int>(knot_vector_[i]->GetNumberOfKnots()) < 2 * degree_[i].get() + 2) {
         throw std::runtime_error("There have to be at least 2p + 2 knots.");
       }
+      if (!std::is_sorted(knot_vector_[i]->begin(), knot_vector_[i]->end())) {
+        throw std::runtime_error("The knots have to be sorted in ascending order.");
+      }
+      if (knot_vector_[i]->GetNumberOfKnots() > 0 && knot_vector_[i]->IsLastKnot(knot_vector_[i]->GetKnot(0))) {
+        throw std::runtime_error("The first and the last knot must differ.");
+      }
       for (int j = 1; j < degree_[i].get() + 1; j++) {
         if (knot_vector_[i]->GetKnot(0).get() != knot_vector_[i]->GetKnot(j).get()) {
           throw std::runtime_error("The first knot must have multiplicity p+1.");
-- 
2.43.0


From af01866bcea8871141233ca28c152e96240d73d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 16/24] fix: IGESReader read outside the file's data for
 incomplete or malformed files

---
 src/io/iges_reader.cc | 42 +++++++++++++++++++++++++++++++++---------
 src/io/iges_reader.h  |  3 +++
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..2f395c0 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -32,6 +32,9 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
   std::vector<std::string> directoryEntrySection;
   std::vector<std::string> parameterDataSection;
   while (getline(newFile, line)) {
+    if (line.size() <= 72) {
+      continue;
+    }
     if (line[72] == 'D') {
       directoryEntrySection.push_back(line.substr(0, 72));
     }
@@ -40,7 +43,7 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
     }
   }
   std::vector<std::any> splines;
-  for (int i = 0; i < directoryEntrySection.size() * 0.5; ++i) {
+  for (size_t i = 0; i < directoryEntrySection.size() / 2; ++i) {
     int entityType = std::stoi(trim(directoryEntrySection[i * 2].substr(5, 3)));
     if (entityType == 126) {
       splines.push_back(Create1DSpline(ParameterSectionToVector(parameterDataSection,
@@ -56,9 +59,10 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
 }
 
 std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData) {
-  auto upperSumIndex = static_cast<int>(parameterData[1]);
+  ThrowIfTooFewEntries(parameterData, 7);
+  auto upperSumIndex = GetCount(parameterData, 1);
   std::array<Degree, 1> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[2])};
+  degree[0] = Degree{GetCount(parameterData, 2)};
   KnotVectors<1> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -71,6 +75,7 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
   weightsStartEnd[1] = weightsStartEnd[0] + upperSumIndex;
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
   controlPointsStartEnd[1] = controlPointsStartEnd[0] + (3 * upperSumIndex) + 2;
+  ThrowIfTooFewEntries(parameterData, controlPointsStartEnd[1] + 1);
   std::vector<ParamCoord> knots;
   for (int i = knotsStartEnd[0]; i <= knotsStartEnd[1]; ++i) {
     knots.emplace_back(parameterData[i]);
@@ -102,11 +107,13 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
 
 std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData) {
   std::array<int, 2> upperSumIndex{};
-  upperSumIndex[0] = static_cast<int>(parameterData[1]);
-  upperSumIndex[1] = static_cast<int>(parameterData[2]);
+  ThrowIfTooFewEntries(parameterData, 10);
+  upperSumIndex[0] = GetCount(parameterData, 1);
+  upperSumIndex[1] = GetCount(parameterData, 2);
+  ThrowIfTooFewEntries(parameterData, (upperSumIndex[0] + size_t{1}) * (upperSumIndex[1] + size_t{1}));
   std::array<Degree, 2> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[3])};
-  degree[1] = Degree{static_cast<int>(parameterData[4])};
+  degree[0] = Degree{GetCount(parameterData, 3)};
+  degree[1] = Degree{GetCount(parameterData, 4)};
   KnotVectors<2> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -120,7 +127,8 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
+  ThrowIfTooFewEntries(parameterData, controlPointsStartEnd[1] + 1);
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
     knots[0].push_back(ParamCoord{parameterData[i]});
@@ -137,7 +145,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
     controlPointCoordinates.push_back(parameterData[i]);
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
@@ -170,12 +178,28 @@ std::vector<double> io::IGESReader::ParameterSectionToVector(std::vector<std::st
   int first = ParameterSectionStartEndPointers[0] - 1;
   int last = ParameterSectionStartEndPointers[1] - 1;
   std::string temp;
+  if (first < 0 || last < first || last >= static_cast<int>(parameterSection.size())) {
+    throw std::runtime_error("The IGES file does not contain the parameter data a directory entry refers to.");
+  }
   for (int i = first; i <= last; ++i) {
     temp.append(parameterSection[i]);
   }
   return util::StringOperations::DelimitedStringToVector(temp);
 }
 
+int io::IGESReader::GetCount(const std::vector<double> &parameterData, int index) {
+  if (!(parameterData[index] >= 0 && parameterData[index] < static_cast<double>(parameterData.size()))) {
+    throw std::runtime_error("The IGES file contains an invalid degree or number of control points.");
+  }
+  return static_cast<int>(parameterData[index]);
+}
+
+void io::IGESReader::ThrowIfTooFewEntries(const std::vector<double> &parameterData, size_t requiredEntries) {
+  if (parameterData.size() < requiredEntries) {
+    throw std::runtime_error("The parameter data of a spline in the IGES file is incomplete.");
+  }
+}
+
 std::string io::IGESReader::trim(std::string s) {
   return util::StringOperations::trim(std::move(s));
 }
diff --git a/src/io/iges_reader.h b/src/io/iges_reader.h
index 05f62bc..c9bd5d2 100644
--- a/src/io/iges_reader.h
+++ b/src/io/iges_reader.h
@@ -39,6 +39,9 @@ class IGESReader : public Reader {
   std::vector<double> ParameterSectionToVector(std::vector<std::string> parameterSection,
                                                std::array<int, 2> ParameterSectionStartEndPointers);
 
+  static int GetCount(const std::vector<double> &parameterData, int index);
+  static void ThrowIfTooFewEntries(const std::vector<double> &parameterData, size_t requiredEntries);
+
   static inline std::string trim(std::string s);
 };
 }  // namespace io
-- 
2.43.0


From 8d6f17748dde7264151abe6efa8f278c1d3f9e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 17/24] fix: reject negative and excessive degrees instead of
 reading outside the knot vector

---
 src/spl/parameter_space.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spl/parameter_space.h b/src/spl/parameter_space.h
index 366d1c5..bdb237b 100644
--- a/src/spl/parameter_space.h
+++ b/src/spl/parameter_space.h
@@ -209,13 +209,16 @@ class ParameterSpace {
  private:
   void ThrowIfKnotVectorDoesNotStartAndEndWith() {
     for (int i = 0; i < DIM; i++) {
-      if (static_cast<int>(knot_vector_[i]->GetNumberOfKnots()) < 2 * degree_[i].get() + 2) {
+      if (degree_[i].get() < 0) {
+        throw std::runtime_error("The degree must not be negative.");
+      }
+      if (static_cast<int64_t>(knot_vector_[i]->GetNumberOfKnots()) < 2 * static_cast<int64_t>(degree_[i].get()) + 2) {
         throw std::runtime_error("There have to be at least 2p + 2 knots.");
       }
       if (!std::is_sorted(knot_vector_[i]->begin(), knot_vector_[i]->end())) {
         throw std::runtime_error("The knots have to be sorted in ascending order.");
       }
-      if (knot_vector_[i]->GetNumberOfKnots() > 0 && knot_vector_[i]->IsLastKnot(knot_vector_[i]->GetKnot(0))) {
+      if (knot_vector_[i]->IsLastKnot(knot_vector_[i]->GetKnot(0))) {
         throw std::runtime_error("The first and the last knot must differ.");
       }
       for (int j = 1; j < degree_[i].get() + 1; j++) {
-- 
2.43.0


From 4a769009f85ba163a9161754e53dbbb8a70810e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 18/24] fix: XMLReader read outside the file's data for
 incomplete or malformed files

---
 src/io/xml_reader.cc      | 4 ++++
 src/io/xml_reader_utils.h | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/xml_reader.cc b/src/io/xml_reader.cc
index ede3477..91092e2 100644
--- a/src/io/xml_reader.cc
+++ b/src/io/xml_reader.cc
@@ -99,6 +99,10 @@ std::vector<baf::ControlPoint> io::XMLReader::GetControlPoints(pugi::xml_node *s
   int dimension = std::stoi(spline->attribute("spaceDim").value());
   int number_of_vars = std::stoi(spline->attribute("numOfCntrlPntVars").value());
   int number_of_points = std::stoi(spline->attribute("numCntrlPnts").value());
+  if (number_of_points < 1 || dimension < 1 || number_of_vars < 1 || dimension > number_of_vars - start
+      || static_cast<int64_t>(number_of_points) * number_of_vars > static_cast<int64_t>(vars.size())) {
+    throw std::runtime_error("The control point variables of a spline in the XML file are incomplete.");
+  }
   std::vector<baf::ControlPoint> points;
   for (int i = 0; i < number_of_points; i++) {
     std::vector<double> coordinates;
diff --git a/src/io/xml_reader_utils.h b/src/io/xml_reader_utils.h
index b1bb4dc..35ca697 100644
--- a/src/io/xml_reader_utils.h
+++ b/src/io/xml_reader_utils.h
@@ -52,8 +52,7 @@ class XMLReaderUtils {
   static std::array<Degree, DIM> StringVectorToDegreeArray(const std::vector<std::string> &string_vector) {
     std::array<Degree, DIM> converted;
     for (int i = 0; i < DIM; i++) {
-      auto a = string_vector[i];
-      converted[i] = Degree{std::stoi(string_vector[i])};
+      converted[i] = Degree{std::stoi(string_vector.at(i))};
     }
     return converted;
   }
-- 
2.43.0


From 55c7d40fcbc0777bb7c226ab248331f6c2930f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 19/24] fix: IRITReader read outside the file's data for
 incomplete or malformed files

---
 src/io/irit_reader.cc      | 23 +++++++++++++----------
 src/io/irit_reader_utils.h | 19 +++++++++++++------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 9115312..ada25c3 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -48,7 +48,7 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
 
 std::vector<int> io::IRITReader::GetSplinePositions(const std::vector<std::string> &entries) const {
   std::vector<int> spline_positions;
-  for (auto i = 0u; i < entries.size(); i++) {
+  for (auto i = 1u; i < entries.size(); i++) {
     if (entries[i] == "BSPLINE") {
       spline_positions.push_back(i - 1);
     }
@@ -103,9 +103,12 @@ std::any io::IRITReader::Get3DSpline(int start, const std::vector<std::string> &
 }
 
 int io::IRITReader::GetNumberOfControlPoints(int start, const std::vector<std::string> &entries) {
-  int total_number_of_points = 1;
+  size_t total_number_of_points = 1;
   for (int i = 0; i < GetDimension(entries[start]); i++) {
-    total_number_of_points *= util::StringOperations::StringVectorToNumberVector<int>({entries[start + 2 + i]})[0];
+    total_number_of_points *= io::IRITReaderUtils::GetCount(entries, start + 2 + i);
+    if (total_number_of_points > entries.size()) {
+      throw std::runtime_error("The IRIT file does not contain all control points of a spline.");
+    }
   }
   return total_number_of_points;
 }
@@ -119,12 +122,12 @@ std::vector<baf::ControlPoint> io::IRITReader::GetControlPoints(int start,
   start = GetPositionOfFirstControlPoint(start, entries);
   for (int i = 0; i < number_of_control_points; i++) {
     std::vector<double> coordinates;
-    while (!util::StringOperations::EndsWith(entries[start], "]")) {
+    while (!util::StringOperations::EndsWith(entries.at(start), "]")) {
       coordinates.push_back(
-          util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+          util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     }
     coordinates.push_back(
-        util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+        util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     if (rational) {
       coordinates.erase(coordinates.begin());
     }
@@ -141,8 +144,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
   if (rational) {
     start = GetPositionOfFirstControlPoint(start, entries);
     for (auto i = 0u; i < number_of_control_points; i++) {
-      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++]));
-      while (!util::StringOperations::EndsWith(entries[start++], "]")) {}
+      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++)));
+      while (!util::StringOperations::EndsWith(entries.at(start++), "]")) {}
     }
   }
   return weights;
@@ -150,8 +153,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
 
 int io::IRITReader::GetPositionOfFirstControlPoint(int start, const std::vector<std::string> &entries) const {
   ++start;
-  while (!util::StringOperations::StartsWith(entries[start], "[")
-      || util::StringOperations::StartsWith(entries[start], "[KV")) {
+  while (!util::StringOperations::StartsWith(entries.at(start), "[")
+      || util::StringOperations::StartsWith(entries.at(start), "[KV")) {
     ++start;
   }
   return start;
diff --git a/src/io/irit_reader_utils.h b/src/io/irit_reader_utils.h
index 65efa93..9ec14b0 100644
--- a/src/io/irit_reader_utils.h
+++ b/src/io/irit_reader_utils.h
@@ -25,12 +25,19 @@ You should have received a copy of the GNU Lesser General Public License along w
 namespace io {
 class IRITReaderUtils {
  public:
+  static int GetCount(const std::vector<std::string> &entries, int position) {
+    double count = util::StringOperations::StringToDouble(entries.at(position));
+    if (!(count >= 1 && count <= static_cast<double>(entries.size()))) {
+      throw std::runtime_error("The IRIT file contains an invalid order or number of control points.");
+    }
+    return static_cast<int>(count);
+  }
+
   template<int DIM>
   static std::array<Degree, DIM> GetDegrees(int start, const std::vector<std::string> &entries) {
     std::array<Degree, DIM> degrees;
     for (int i = 0; i < DIM; i++) {
-      degrees[i] =
-          Degree(util::StringOperations::StringVectorToNumberVector<int>({entries[start + DIM + 2 + i]})[0] - 1);
+      degrees[i] = Degree(GetCount(entries, start + DIM + 2 + i) - 1);
     }
     return degrees;
   }
@@ -39,10 +46,10 @@ class IRITReaderUtils {
   static KnotVectors<DIM> GetKnotVectors(int start, const std::vector<std::string> &entries) {
     KnotVectors<DIM> knot_vectors;
     for (int i = 0; i < DIM; i++) {
-      while (!util::StringOperations::StartsWith(entries[start++], "[KV")) {}
+      while (!util::StringOperations::StartsWith(entries.at(start++), "[KV")) {}
       std::vector<ParamCoord> knots;
-      while (!util::StringOperations::StartsWith(entries[start], "[")) {
-        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])));
+      while (!util::StringOperations::StartsWith(entries.at(start), "[")) {
+        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))));
       }
       knot_vectors[i] = std::make_shared<baf::KnotVector>(knots);
     }
@@ -51,7 +58,7 @@ class IRITReaderUtils {
 
   template<int DIM>
   static bool IsRational(int start_of_spline, const std::vector<std::string> &entries) {
-    return util::StringOperations::StartsWith(entries[start_of_spline + 2 * DIM + 2], "P");
+    return util::StringOperations::StartsWith(entries.at(start_of_spline + 2 * DIM + 2), "P");
   }
 };
 }  // namespace io
-- 
2.43.0


From c6f2a0b86897a37b4658b5e0f42fbdbc8b5d6adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:14 +0000
Subject: [PATCH 20/24] fix: FilterVector read before the start of the vector
 for negative positions

---
 src/util/vector_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/vector_utils.h b/src/util/vector_utils.h
index 6ac5548..eb91ba9 100644
--- a/src/util/vector_utils.h
+++ b/src/util/vector_utils.h
@@ -69,10 +69,10 @@ class VectorUtils {
   static std::vector<T> FilterVector(const std::vector<T> &input, const std::vector<int> &positions) {
     std::vector<T> output;
     for (const auto &pos : positions) {
-      if (pos < static_cast<int>(input.size())) {
+      if (pos >= 0 && pos < static_cast<int>(input.size())) {
         output.emplace_back(input[pos]);
       } else {
-        throw std::runtime_error("The vector index is too high to be filtered from the input vector.");
+        throw std::runtime_error("The vector index is not valid to be filtered from the input vector.");
       }
     }
     return output;
-- 
2.43.0


From 583dc49a9a67c4b01257f5b9a7809b20f699e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:14 +0000
Subject: [PATCH 21/24] fix: swept surfaces along straight trajectories need
 the tangent, not the position, for their frame

---
 src/spl/surface_generator.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 37d4ba7..2fa4d01 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -152,9 +152,12 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
                                                            std::vector<double> ddT,
                                                            std::array<double, 3> previous,
                                                            int index) {
+  double norm_dT = ComputeNorm(dT);
+  double norm_ddT = ComputeNorm(ddT);
   std::array<double, 3> crossProduct = CrossProduct(dT, std::move(ddT));
   double norm_cross = ComputeNorm(crossProduct);
-  if (norm_cross > 0.0) {
+  // A cross product of the size of rounding errors means that the trajectory is straight.
+  if (norm_cross > 1e-10 * norm_dT * (norm_dT + norm_ddT)) {
     for (int i = 0; i < 3; ++i) {
       crossProduct[i] /= norm_cross;
     }
@@ -165,13 +168,17 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
     }
     return crossProduct;
   }
-  double norm_dT = ComputeNorm(dT);
   for (int i = 0; i < 3; ++i) {
     dT[i] /= norm_dT;
   }
-  double product = DotProduct(previous, T);
+  double product = DotProduct(previous, dT);
+  if (std::abs(product) > 1.0 - 1e-10) {
+    // The previous normal is parallel to the tangent, so any direction perpendicular to the tangent has to do.
+    previous = std::abs(dT[0]) < 0.9 ? std::array<double, 3>({1.0, 0.0, 0.0}) : std::array<double, 3>({0.0, 1.0, 0.0});
+    product = DotProduct(previous, dT);
+  }
   for (int i = 0; i < 3; ++i) {
-    crossProduct[i] = previous[i] - product * T[i];
+    crossProduct[i] = previous[i] - product * dT[i];
   }
   norm_cross = ComputeNorm(crossProduct);
   for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From 897c8687821de0dcf197641f39288ea6d1a634a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:57 +0000
Subject: [PATCH 22/24] fix: swept surfaces must start at the trajectory's
 first knot

---
 src/baf/knot_vector.cc       | 2 +-
 src/spl/surface_generator.cc | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 5e14ad7..73c1b2c 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -33,7 +33,7 @@ baf::KnotVector::KnotVector(ConstKnotIterator begin, ConstKnotIterator end) : kn
                                                                                                              end)) {}
 baf::KnotVector::KnotVector(std::vector<ParamCoord> coords, Degree degree, int nbControlPoints) {
   for (int i = 0; i <= degree.get(); ++i) {
-    knots_.emplace_back(ParamCoord{0.0});
+    knots_.emplace_back(coords[0]);
   }
   double curParamCoord;
   for (int i = 1; i <= nbControlPoints - 1 - degree.get(); ++i) {
diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 2fa4d01..b910827 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -54,6 +54,8 @@ std::shared_ptr<spl::WeightedPhysicalSpace<2>> spl::SurfaceGenerator::JoinPhysic
 spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nurbs_T,
                                         std::shared_ptr<spl::NURBS<1>> const &nurbs_C,
                                         int nbInter, std::vector<std::array<double, 3>> scaling) {
+  double first_knot = nurbs_T->GetKnotVector(0)->GetKnot(0).get();
+  double last_knot = nurbs_T->GetKnotVector(0)->GetLastKnot().get();
   double step_size = nurbs_T->GetKnotVectorRange(0) / (nbInter - 1);
   std::vector<ParamCoord> v_i;
   std::vector<double> dT_v;
@@ -72,7 +74,7 @@ spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nu
   std::vector<double> j_weights(nbInter * m, 0.0);
   v_i.reserve(nbInter);
   for (int i = 0; i < nbInter; ++i) {
-    v_i.emplace_back(ParamCoord{i * step_size});
+    v_i.emplace_back(ParamCoord{i == nbInter - 1 ? last_knot : std::min(first_knot + i * step_size, last_knot)});
     t_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), dimensions);
     weight_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), std::vector<int>({3}))[0];
     dT_v = nurbs_T->EvaluateDerivative(std::array<ParamCoord, 1>({v_i[i]}), dimensions, first_derivative);
-- 
2.43.0


From c68dbd246c0768b7b61f88088a7a3f4bcafc63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:06 +0000
Subject: [PATCH 23/24] fix: projection must start and stay inside the knot
 vector range of each direction

---
 src/spl/projection.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..f0860bb 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_SPL_PROJECTION_H_
 #define SRC_SPL_PROJECTION_H_
 
+#include <algorithm>
 #include <vector>
 
 #include "b_spline.h"
@@ -85,10 +86,10 @@ class Projection {
     util::ElementGenerator<1> element_generator(spline);
     std::vector<util::Element> elements = element_generator.GetElementList(0);
     std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
-    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+    paramCoords[0] = ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()};
+    std::vector<double> splinePhysicalCoords = spline->Evaluate(paramCoords, dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
@@ -115,8 +116,8 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(std::min(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0], last_knot1));
+        ParamCoord coord2 = ParamCoord(std::min(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1], last_knot2));
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
@@ -140,11 +141,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From 68af92ebed491ae64dee402650c7c4a3ffb49bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:28 +0000
Subject: [PATCH 24/24] fix: projection returned not-a-number parameters where
 derivatives vanish or are parallel

---
 src/spl/projection.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index f0860bb..89b8658 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -182,21 +182,30 @@ class Projection {
         util::VectorUtils<double>::ComputeDifference(point_phys_coords, current_point);
     // This is only the first order algorithm. An implemented but non-working version of the second order algorithm
     // can be found in commit 2ed993e6dcef3d184b70640f6b9498efae52747a.
-    return {util::VectorUtils<double>::ComputeScalarProduct(derivative, projectionVector)
-                / util::VectorUtils<double>::ComputeScalarProduct(derivative, derivative)};
+    double derivative_squared = util::VectorUtils<double>::ComputeScalarProduct(derivative, derivative);
+    if (derivative_squared == 0) return {0.0};
+    return {util::VectorUtils<double>::ComputeScalarProduct(derivative, projectionVector) / derivative_squared};
   }
 
   static std::array<double, 2> GetDelta2D(const std::vector<double> &current_point,
                                           const std::vector<double> &derivative_dir1,
                                           const std::vector<double> &derivative_dir2,
                                           const std::vector<double> &point_phys_coords) {
-    std::vector<double> q = GetQ(point_phys_coords, current_point, derivative_dir1, derivative_dir2);
+    std::vector<double> normal = util::VectorUtils<double>::CrossProduct(derivative_dir1, derivative_dir2);
+    bool has_tangent_plane = util::VectorUtils<double>::ComputeTwoNorm(normal) > 0;
+    std::vector<double> q = has_tangent_plane
+        ? GetQ(point_phys_coords, current_point, derivative_dir1, derivative_dir2) : point_phys_coords;
     std::vector<double> diff = util::VectorUtils<double>::ComputeDifference(q, current_point);
     double a = util::VectorUtils<double>::ComputeScalarProduct(derivative_dir1, derivative_dir1);
     double b = util::VectorUtils<double>::ComputeScalarProduct(derivative_dir2, derivative_dir1);
     double c = util::VectorUtils<double>::ComputeScalarProduct(diff, derivative_dir1);
     double d = util::VectorUtils<double>::ComputeScalarProduct(derivative_dir2, derivative_dir2);
     double e = util::VectorUtils<double>::ComputeScalarProduct(diff, derivative_dir2);
+    if (!has_tangent_plane || !(a * d - b * b > 0)) {
+      // The derivatives are linearly dependent, therefore only follow the longer one if there is any.
+      if (a >= d) return std::array<double, 2>{a > 0 ? c / a : 0.0, 0.0};
+      return std::array<double, 2>{0.0, e / d};
+    }
     double delta2 = (a * e - b * c) / (a * d - b * b);
     double delta1 = (c - b * delta2) / a;
     return std::array<double, 2>{delta1, delta2};
-- 
2.43.0

