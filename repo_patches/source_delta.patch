From fc24f6b8976e021c41f867a879710d146c48533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:01 +0000
Subject: [PATCH 01/40] fix: vector minus expression returned expression minus
 vector

---
 src/placo/problem/expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index ad96bb3..38f134b 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -190,7 +190,7 @@ Expression Expression::operator-(const Eigen::VectorXd v) const
 
 Expression operator-(const Eigen::VectorXd v, const Expression& e)
 {
-  return e - v;
+  return (-e) + v;
 }
 
 Expression Expression::operator+(const double f) const
-- 
2.43.0


From f644d11c9db66d396d33ad4d59afd599592cd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:01 +0000
Subject: [PATCH 02/40] fix: subtracting a number from a multi-row expression
 only changed its first row

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 38f134b..7ca0c3a 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -208,8 +208,8 @@ Expression operator+(double f, const Expression& e)
 
 Expression Expression::operator-(const double f) const
 {
-  Eigen::VectorXd fv(1);
-  fv(0, 0) = f;
+  Eigen::VectorXd fv(rows());
+  fv.setConstant(f);
 
   return (*this) - fv;
 }
-- 
2.43.0


From 94f432a92ddc598a1dbab326f382c62e3f0367b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:01 +0000
Subject: [PATCH 03/40] fix: the mean of an expression divided by the number of
 columns instead of rows

---
 src/placo/problem/expression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/expression.cpp b/src/placo/problem/expression.cpp
index 7ca0c3a..2fbee34 100644
--- a/src/placo/problem/expression.cpp
+++ b/src/placo/problem/expression.cpp
@@ -253,8 +253,8 @@ Expression Expression::sum()
 Expression Expression::mean()
 {
   Expression e = sum();
-  e.A /= (double)cols();
-  e.b /= (double)cols();
+  e.A /= (double)rows();
+  e.b /= (double)rows();
 
   return e;
 }
-- 
2.43.0


From 0d85163fe7459f5ce9fac3ae44c70193948e38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:01 +0000
Subject: [PATCH 04/40] fix: use_sparsity dropped the objective terms coupling
 two column intervals of a soft equality

---
 src/placo/problem/problem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index ff53c15..58747a3 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -235,8 +235,13 @@ void Problem::solve()
 
           Eigen::MatrixXd block = expression_A.block(0, interval.start, constraints, size);
 
-          P.block(interval.start, interval.start, size, size).noalias() +=
-              constraint->weight * block.transpose() * block;
+          for (auto other : sparsity.intervals)
+          {
+            int other_size = 1 + other.end - other.start;
+
+            P.block(interval.start, other.start, size, other_size).noalias() +=
+                constraint->weight * block.transpose() * expression_A.block(0, other.start, constraints, other_size);
+          }
         }
 
         q.block(0, 0, expression_A.cols(), 1).noalias() +=
-- 
2.43.0


From 188d0b517e3b49f14061bd21fb4674dc5b3d6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:47 +0000
Subject: [PATCH 05/40] fix: constraint sizes were checked after the hard
 equalities had been copied

---
 src/placo/problem/problem.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/placo/problem/problem.cpp b/src/placo/problem/problem.cpp
index 58747a3..f606e0b 100644
--- a/src/placo/problem/problem.cpp
+++ b/src/placo/problem/problem.cpp
@@ -118,6 +118,19 @@ void Problem::solve()
 
   for (auto constraint : constraints)
   {
+    if (constraint->expression.cols() > n_variables)
+    {
+      throw QPError("Problem: Inconsistent problem size");
+    }
+    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
+    {
+      throw QPError("Problem: A or b is empty");
+    }
+    if (constraint->expression.A.rows() != constraint->expression.b.rows())
+    {
+      throw QPError("Problem: A.rows() != b.rows()");
+    }
+
     if (constraint->type == ProblemConstraint::Inequality)
     {
       constraint->is_active = false;
@@ -197,19 +210,6 @@ void Problem::solve()
   // Scanning the constraints (counting inequalities and equalities, building objectif function)
   for (auto constraint : constraints)
   {
-    if (constraint->expression.cols() > n_variables)
-    {
-      throw QPError("Problem: Inconsistent problem size");
-    }
-    if (constraint->expression.A.rows() == 0 || constraint->expression.b.rows() == 0)
-    {
-      throw QPError("Problem: A or b is empty");
-    }
-    if (constraint->expression.A.rows() != constraint->expression.b.rows())
-    {
-      throw QPError("Problem: A.rows() != b.rows()");
-    }
-
     if (constraint->type == ProblemConstraint::Inequality)
     {
       // If the constraint is hard, this will be the true inequality, else, this will be the inequality
-- 
2.43.0


From 5144f2f94397459800603a7a944c1e6dc213f8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 06/40] fix: the duration of a spline ignored points added
 since its last evaluation

---
 src/placo/tools/cubic_spline.cpp | 370 +++++++++++++++----------------
 1 file changed, 185 insertions(+), 185 deletions(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index e7aa5d7..2bcb764 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -1,185 +1,185 @@
-#include "placo/tools/cubic_spline.h"
-#include "placo/tools/utils.h"
-#include <Eigen/Dense>
-#include <algorithm>
-#include <cmath>
-#include <iostream>
-#include <vector>
-
-namespace placo::tools
-{
-CubicSpline::CubicSpline(bool angular) : angular(angular)
-{
-}
-
-void CubicSpline::add_point(double t, double x, double dx)
-{
-  // Discontinuity of angle
-  if (angular && _points.size() > 0)
-  {
-    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
-  }
-  struct Point point = { t, x, dx };
-
-  if (_points.size() > 0 && t <= _points.back().t)
-  {
-    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
-  }
-
-  _points.push_back(point);
-  dirty = true;
-}
-
-void CubicSpline::clear()
-{
-  _points.clear();
-  _splines.clear();
-}
-
-double CubicSpline::duration() const
-{
-  return _splines[_splines.size() - 1].t_end - _splines[0].t_start;
-}
-
-/**
- * Return the spline interpolation
- * for given x position
- */
-double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
-{
-  if (dirty)
-  {
-    compute_splines();
-    dirty = false;
-  }
-
-  if (_points.size() == 0)
-  {
-    return 0.0;
-  }
-  else if (_points.size() == 1)
-  {
-    if (type == Value)
-    {
-      return _points.front().x;
-    }
-    else
-    {
-      return _points.front().dx;
-    }
-  }
-  else
-  {
-    if (t < _splines.front().t_start)
-    {
-      t = _splines.front().t_start;
-    }
-    if (t > _splines.back().t_end)
-    {
-      t = _splines.back().t_end;
-    }
-
-    for (size_t i = 0; i < _splines.size(); i++)
-    {
-      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
-      {
-        if (type == Value)
-        {
-          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Speed)
-        {
-          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
-        }
-        else if (type == Acceleration)
-        {
-          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
-        }
-      }
-    }
-    return 0.0;
-  }
-}
-
-double CubicSpline::pos(double t)
-{
-  return interpolation(t, Value);
-}
-
-double CubicSpline::vel(double t)
-{
-  return interpolation(t, Speed);
-}
-
-double CubicSpline::acc(double t)
-{
-  return interpolation(t, Acceleration);
-}
-
-/**
- * Access to internal Points container
- */
-const CubicSpline::Points& CubicSpline::points() const
-{
-  return _points;
-}
-
-double CubicSpline::polynom_value(double t, const Polynom& p)
-{
-  return p.d + t * (t * (p.a * t + p.b) + p.c);
-}
-
-double CubicSpline::polynom_diff(double t, const Polynom& p)
-{
-  return t * (3 * p.a * t + 2 * p.b) + p.c;
-}
-
-double CubicSpline::polynom_diff2(double t, const Polynom& p)
-{
-  return 6 * p.a * t + 2 * p.b;
-}
-
-CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
-{
-  Eigen::Matrix4d M;
-  double t1_2 = t1 * t1;
-  double t1_3 = t1_2 * t1;
-  double t2_2 = t2 * t2;
-  double t2_3 = t2_2 * t2;
-
-  M << t1_3, t1_2, t1, 1,      //
-      3 * t1_2, 2 * t1, 1, 0,  //
-      t2_3, t2_2, t2, 1,       //
-      3 * t2_2, 2 * t2, 1, 0   //
-      ;
-
-  Eigen::Vector4d v;
-  v << x1, dx1, x2, dx2;
-
-  Eigen::Vector4d abcd = M.inverse() * v;
-
-  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
-
-  return polynom;
-}
-
-void CubicSpline::compute_splines()
-{
-  _splines.clear();
-  if (_points.size() < 2)
-  {
-    return;
-  }
-
-  for (size_t i = 1; i < _points.size(); i++)
-  {
-    double t_start = _points[i - 1].t;
-    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
-                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
-                             _points[i - 1].t, _points[i].t };
-
-    _splines.push_back(spline);
-  }
-}
-
-}  // namespace placo::tools
+#include "placo/tools/cubic_spline.h"
+#include "placo/tools/utils.h"
+#include <Eigen/Dense>
+#include <algorithm>
+#include <cmath>
+#include <iostream>
+#include <vector>
+
+namespace placo::tools
+{
+CubicSpline::CubicSpline(bool angular) : angular(angular)
+{
+}
+
+void CubicSpline::add_point(double t, double x, double dx)
+{
+  // Discontinuity of angle
+  if (angular && _points.size() > 0)
+  {
+    x = _points.back().x + tools::wrap_angle(x - _points.back().x);
+  }
+  struct Point point = { t, x, dx };
+
+  if (_points.size() > 0 && t <= _points.back().t)
+  {
+    throw std::runtime_error("Trying to add a point in a cublic spline before a previous one");
+  }
+
+  _points.push_back(point);
+  dirty = true;
+}
+
+void CubicSpline::clear()
+{
+  _points.clear();
+  _splines.clear();
+}
+
+double CubicSpline::duration() const
+{
+  return _points.empty() ? 0.0 : _points.back().t - _points.front().t;
+}
+
+/**
+ * Return the spline interpolation
+ * for given x position
+ */
+double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
+{
+  if (dirty)
+  {
+    compute_splines();
+    dirty = false;
+  }
+
+  if (_points.size() == 0)
+  {
+    return 0.0;
+  }
+  else if (_points.size() == 1)
+  {
+    if (type == Value)
+    {
+      return _points.front().x;
+    }
+    else
+    {
+      return _points.front().dx;
+    }
+  }
+  else
+  {
+    if (t < _splines.front().t_start)
+    {
+      t = _splines.front().t_start;
+    }
+    if (t > _splines.back().t_end)
+    {
+      t = _splines.back().t_end;
+    }
+
+    for (size_t i = 0; i < _splines.size(); i++)
+    {
+      if (t >= _splines[i].t_start && t <= _splines[i].t_end)
+      {
+        if (type == Value)
+        {
+          return polynom_value(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Speed)
+        {
+          return polynom_diff(t - _splines[i].t_start, _splines[i].poly);
+        }
+        else if (type == Acceleration)
+        {
+          return polynom_diff2(t - _splines[i].t_start, _splines[i].poly);
+        }
+      }
+    }
+    return 0.0;
+  }
+}
+
+double CubicSpline::pos(double t)
+{
+  return interpolation(t, Value);
+}
+
+double CubicSpline::vel(double t)
+{
+  return interpolation(t, Speed);
+}
+
+double CubicSpline::acc(double t)
+{
+  return interpolation(t, Acceleration);
+}
+
+/**
+ * Access to internal Points container
+ */
+const CubicSpline::Points& CubicSpline::points() const
+{
+  return _points;
+}
+
+double CubicSpline::polynom_value(double t, const Polynom& p)
+{
+  return p.d + t * (t * (p.a * t + p.b) + p.c);
+}
+
+double CubicSpline::polynom_diff(double t, const Polynom& p)
+{
+  return t * (3 * p.a * t + 2 * p.b) + p.c;
+}
+
+double CubicSpline::polynom_diff2(double t, const Polynom& p)
+{
+  return 6 * p.a * t + 2 * p.b;
+}
+
+CubicSpline::Polynom CubicSpline::fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
+{
+  Eigen::Matrix4d M;
+  double t1_2 = t1 * t1;
+  double t1_3 = t1_2 * t1;
+  double t2_2 = t2 * t2;
+  double t2_3 = t2_2 * t2;
+
+  M << t1_3, t1_2, t1, 1,      //
+      3 * t1_2, 2 * t1, 1, 0,  //
+      t2_3, t2_2, t2, 1,       //
+      3 * t2_2, 2 * t2, 1, 0   //
+      ;
+
+  Eigen::Vector4d v;
+  v << x1, dx1, x2, dx2;
+
+  Eigen::Vector4d abcd = M.inverse() * v;
+
+  struct CubicSpline::Polynom polynom = { abcd[0], abcd[1], abcd[2], abcd[3] };
+
+  return polynom;
+}
+
+void CubicSpline::compute_splines()
+{
+  _splines.clear();
+  if (_points.size() < 2)
+  {
+    return;
+  }
+
+  for (size_t i = 1; i < _points.size(); i++)
+  {
+    double t_start = _points[i - 1].t;
+    struct Spline spline = { fit(_points[i - 1].t - t_start, _points[i - 1].x, _points[i - 1].dx,
+                                 _points[i].t - t_start, _points[i].x, _points[i].dx),
+                             _points[i - 1].t, _points[i].t };
+
+    _splines.push_back(spline);
+  }
+}
+
+}  // namespace placo::tools
-- 
2.43.0


From 972ccfdb556bfdf2330e0ef2151339dbfad72be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 07/40] fix: the acceleration of a single-point spline was its
 speed

---
 src/placo/tools/cubic_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/tools/cubic_spline.cpp b/src/placo/tools/cubic_spline.cpp
index 2bcb764..bde8497 100644
--- a/src/placo/tools/cubic_spline.cpp
+++ b/src/placo/tools/cubic_spline.cpp
@@ -65,7 +65,7 @@ double CubicSpline::interpolation(double t, CubicSpline::ValueType type)
     }
     else
     {
-      return _points.front().dx;
+      return type == Speed ? _points.front().dx : 0.0;
     }
   }
   else
-- 
2.43.0


From 736b937ff0d5bc51d8b648818f3cdae6390bd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:41 +0000
Subject: [PATCH 08/40] fix: the time variation of a joint jacobian, by name,
 was the jacobian itself

---
 src/placo/model/robot_wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 152501c..32ba811 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -599,7 +599,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(model.getJointId(joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From 616a414a97ba5379c969b02871a3859952b5b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:41 +0000
Subject: [PATCH 09/40] fix: unknown joint names were only rejected by some
 accessors, the others read out of bounds

---
 src/placo/model/robot_wrapper.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 32ba811..8df11f5 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -193,7 +193,7 @@ double RobotWrapper::get_joint(const std::string& name)
   return state.q[get_joint_offset(name)];
 }
 
-int RobotWrapper::get_joint_offset(const std::string& name)
+static pinocchio::JointIndex get_joint_index(const pinocchio::Model& model, const std::string& name)
 {
   if (!model.existJointName(name))
   {
@@ -202,25 +202,30 @@ int RobotWrapper::get_joint_offset(const std::string& name)
     throw std::runtime_error(oss.str());
   }
 
-  auto index = model.getJointId(name);
+  return model.getJointId(name);
+}
+
+int RobotWrapper::get_joint_offset(const std::string& name)
+{
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_q();
 }
 
 int RobotWrapper::get_joint_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nq();
 }
 
 int RobotWrapper::get_joint_v_offset(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].idx_v();
 }
 
 int RobotWrapper::get_joint_v_size(const std::string& name)
 {
-  auto index = model.getJointId(name);
+  auto index = get_joint_index(model, name);
   return model.joints[index].nv();
 }
 
@@ -585,7 +590,7 @@ Eigen::MatrixXd RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameInde
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
@@ -599,7 +604,7 @@ Eigen::MatrixXd RobotWrapper::joint_jacobian(pinocchio::JointIndex joint, pinocc
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(const std::string& joint, const std::string& reference)
 {
-  return joint_jacobian_time_variation(model.getJointId(joint), string_to_reference(reference));
+  return joint_jacobian_time_variation(get_joint_index(model, joint), string_to_reference(reference));
 }
 
 Eigen::MatrixXd RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex joint, pinocchio::ReferenceFrame ref)
-- 
2.43.0


From 55b2c7f0e0d557079497fd077ebc7f4ba632e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:39 +0000
Subject: [PATCH 10/40] fix: torques with a fixed frame ignored the base
 acceleration and the inertial part of the contact force

---
 src/placo/model/robot_wrapper.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/placo/model/robot_wrapper.cpp b/src/placo/model/robot_wrapper.cpp
index 8df11f5..26a26f5 100644
--- a/src/placo/model/robot_wrapper.cpp
+++ b/src/placo/model/robot_wrapper.cpp
@@ -741,15 +741,21 @@ Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::
   auto h = non_linear_effects();
   auto M = mass_matrix();
 
-  // Compute f the forces fixing the frame
+  // Compute the floating base acceleration that keeps the frame fixed (J qdd + dJ qd = 0)
   Eigen::MatrixXd J = frame_jacobian(frameIndex);
-  Eigen::VectorXd f = J.transpose().block(0, 0, 6, 6).inverse() * h.block(0, 0, 6, 1);
+  Eigen::MatrixXd dJ = frame_jacobian_time_variation(frameIndex);
+  Eigen::MatrixXd Ju = J.block(0, 0, 6, 6);
 
-  auto h_a = h.bottomRows(model.nv - 6);
-  auto M_a = M.bottomRightCorner(model.nv - 6, model.nv - 6);
+  Eigen::VectorXd qdd(model.nv);
+  qdd.bottomRows(model.nv - 6) = qdd_a;
+  qdd.topRows(6) = -Ju.inverse() * (J.rightCols(model.nv - 6) * qdd_a + dJ * state.qd);
+
+  // Compute f the forces fixing the frame
+  Eigen::VectorXd tau = M * qdd + h;
+  Eigen::VectorXd f = Ju.transpose().inverse() * tau.topRows(6);
 
   // Compute the torques
-  return M_a * qdd_a + h_a - (J.transpose() * f).bottomRows(model.nv - 6);
+  return (tau - J.transpose() * f).bottomRows(model.nv - 6);
 }
 
 Eigen::VectorXd RobotWrapper::torques_from_acceleration_with_fixed_frame(Eigen::VectorXd qdd_a, std::string frame)
-- 
2.43.0


From 3f86701d11daaf2ad43d4c928ee3c508cd611436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:08 +0000
Subject: [PATCH 11/40] fix: axis align tasks gave NaN when the axes were
 exactly parallel or opposite

---
 src/placo/kinematics/axis_align_task.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/placo/kinematics/axis_align_task.cpp b/src/placo/kinematics/axis_align_task.cpp
index 561f28e..3741866 100644
--- a/src/placo/kinematics/axis_align_task.cpp
+++ b/src/placo/kinematics/axis_align_task.cpp
@@ -20,7 +20,13 @@ void AxisAlignTask::update()
   // the rotation about z to be the error, and about y to be zero.
   Eigen::Matrix3d R_world_axisframe;
   R_world_axisframe.col(0) = (T_world_frame.rotation() * axis_frame).normalized();
-  R_world_axisframe.col(2) = R_world_axisframe.col(0).cross(targetAxis_world_normalized).normalized();
+  Eigen::Vector3d rotation_axis = R_world_axisframe.col(0).cross(targetAxis_world_normalized);
+  if (rotation_axis.norm() < 1e-12)
+  {
+    // The axes are (anti)parallel: any axis orthogonal to them can be used
+    rotation_axis = R_world_axisframe.col(0).unitOrthogonal();
+  }
+  R_world_axisframe.col(2) = rotation_axis.normalized();
   R_world_axisframe.col(1) = R_world_axisframe.col(2).cross(R_world_axisframe.col(0));
 
   // Computing the error angle we want to compensate
-- 
2.43.0


From 59bee21a276feba57796d4897d425de3d9b2cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:44 +0000
Subject: [PATCH 12/40] fix: the bias acceleration of dynamics relative
 position tasks used the angular jacobians and counted the centripetal term
 twice

---
 src/placo/dynamics/relative_position_task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/relative_position_task.cpp b/src/placo/dynamics/relative_position_task.cpp
index 9b35bfc..79e2abc 100644
--- a/src/placo/dynamics/relative_position_task.cpp
+++ b/src/placo/dynamics/relative_position_task.cpp
@@ -50,8 +50,8 @@ void RelativePositionTask::update()
   J += a_R_w * (Jb.block(0, 0, 3, solver->N) - Ja.block(0, 0, 3, solver->N));
 
   Eigen::Vector3d e = 2 * pinocchio::skew(a_omega_w) * a_R_w * w_dAB;
-  e += 2 * pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
-  e += a_R_w * (dJb.block(3, 0, 3, solver->N) - dJa.block(3, 0, 3, solver->N)) * solver->robot.state.qd;
+  e += pinocchio::skew(a_omega_w) * pinocchio::skew(a_omega_w) * a_AB;
+  e += a_R_w * (dJb.block(0, 0, 3, solver->N) - dJa.block(0, 0, 3, solver->N)) * solver->robot.state.qd;
   e += pinocchio::skew(a_AB) * a_R_w * dJa.block(3, 0, 3, solver->N) * solver->robot.state.qd;
 
   A = mask.apply(J);
-- 
2.43.0


From 5324eacfe37cee0894ad226799520abf29936751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:44 +0000
Subject: [PATCH 13/40] fix: removing a task that does not belong to the
 dynamics solver deleted it

---
 src/placo/dynamics/dynamics_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index e112249..1edcd73 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -566,7 +566,10 @@ void DynamicsSolver::remove_task(Task& task)
 {
   tasks.erase(&task);
 
-  delete &task;
+  if (task.solver_memory)
+  {
+    delete &task;
+  }
 }
 
 void DynamicsSolver::remove_task(FrameTask& task)
-- 
2.43.0


From 64b5ce19dfd4e1217927a036294f152a74cced93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:44 +0000
Subject: [PATCH 14/40] fix: the target angular acceleration of dynamics
 relative orientation tasks was not rotated to the world like the velocity

---
 src/placo/dynamics/relative_orientation_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/relative_orientation_task.cpp b/src/placo/dynamics/relative_orientation_task.cpp
index 95c1008..01a4a0e 100644
--- a/src/placo/dynamics/relative_orientation_task.cpp
+++ b/src/placo/dynamics/relative_orientation_task.cpp
@@ -39,7 +39,8 @@ void RelativeOrientationTask::update()
   Eigen::Vector3d world_omega_a_b_real = world_omega_b - world_omega_a;
   Eigen::Vector3d velocity_error_world = R_world_a * omega_a_b - world_omega_a_b_real;
 
-  Eigen::Vector3d desired_acceleration = kp * orientation_error_world + get_kd() * velocity_error_world + domega_a_b;
+  Eigen::Vector3d desired_acceleration =
+      kp * orientation_error_world + get_kd() * velocity_error_world + R_world_a * domega_a_b;
 
   Eigen::Matrix3d Jlog;
   pinocchio::Jlog3(M, Jlog);
-- 
2.43.0


From 380db7b7a8274551c634a2a94258114af4166554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:44 +0000
Subject: [PATCH 15/40] fix: setting a gear in the dynamics gear task dropped
 the gears of all other joints

---
 src/placo/dynamics/gear_task.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/placo/dynamics/gear_task.cpp b/src/placo/dynamics/gear_task.cpp
index d5af82b..b0aac01 100644
--- a/src/placo/dynamics/gear_task.cpp
+++ b/src/placo/dynamics/gear_task.cpp
@@ -9,7 +9,9 @@ GearTask::GearTask()
 
 void GearTask::set_gear(std::string target, std::string source, double ratio)
 {
-  gears.clear();
+  int target_id = solver->robot.get_joint_v_offset(target);
+  gears[target_id].clear();
+
   add_gear(target, source, ratio);
 }
 
-- 
2.43.0


From 663216eeae3bdec76428b1446c601b9453c31ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:44 +0000
Subject: [PATCH 16/40] fix: the tangential cost of 6D and line contacts
 applied to the normal force instead of the first tangential one

---
 src/placo/dynamics/contacts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index 2062cd3..f76f84d 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -138,7 +138,7 @@ void Contact6D::add_constraints(Problem& problem)
   }
   if (weight_tangentials > 0)
   {
-    problem.add_constraint(f.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
@@ -212,7 +212,7 @@ void LineContact::add_constraints(Problem& problem)
   if (weight_tangentials > 0)
   {
     Expression f_surface = R_world_surface.transpose() * f;
-    problem.add_constraint(f_surface.slice(F_Y, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
+    problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
   {
-- 
2.43.0


From 69f10c681370645b340ef77fcd25709296cbbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:01 +0000
Subject: [PATCH 17/40] fix: line contacts multiplied their 5 components by a
 3x3 rotation and read the wrong moment

---
 src/placo/dynamics/contacts.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/placo/dynamics/contacts.cpp b/src/placo/dynamics/contacts.cpp
index f76f84d..d348be6 100644
--- a/src/placo/dynamics/contacts.cpp
+++ b/src/placo/dynamics/contacts.cpp
@@ -184,7 +184,7 @@ void LineContact::add_constraints(Problem& problem)
     }
 
     // Expressing the force in the surface frame
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
 
     // The contact is unilateral
     problem.add_constraint(f_surface.slice(F_Z, 1) >= 0);
@@ -192,8 +192,9 @@ void LineContact::add_constraints(Problem& problem)
     // We want the ZMPs to remain in the contacts
     // We add constraints in the form of:
     // -l_1 f_x <= m_y <= l_1 f_x
-    problem.add_constraint(f_surface.slice(M_Y, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
-    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f_surface.slice(M_Y, 1));
+    // In a line contact, there are only two moments, m_y being the first one
+    problem.add_constraint(f.slice(3, 1) <= ((length / 2) * f_surface.slice(F_Z, 1)));
+    problem.add_constraint((-(length / 2) * f_surface.slice(F_Z, 1)) <= f.slice(3, 1));
 
     // We don't slip
     problem.add_constraint(f_surface.slice(F_X, 1) <= mu * f_surface.slice(F_Z, 1));
@@ -206,12 +207,12 @@ void LineContact::add_constraints(Problem& problem)
   // Objective
   if (weight_forces > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 3) == 0).configure(ProblemConstraint::Soft, weight_forces);
   }
   if (weight_tangentials > 0)
   {
-    Expression f_surface = R_world_surface.transpose() * f;
+    Expression f_surface = R_world_surface.transpose() * f.slice(F_X, 3);
     problem.add_constraint(f_surface.slice(F_X, 2) == 0).configure(ProblemConstraint::Soft, weight_tangentials);
   }
   if (weight_moments > 0)
@@ -223,7 +224,8 @@ void LineContact::add_constraints(Problem& problem)
 
 Eigen::Vector3d LineContact::zmp()
 {
-  return Eigen::Vector3d(-wrench(M_Y, 0) / wrench(F_Z, 0), 0, 0);
+  Eigen::Vector3d f_surface = R_world_surface.transpose() * wrench.head(3);
+  return Eigen::Vector3d(-wrench(3, 0) / f_surface(F_Z), 0, 0);
 }
 
 ExternalWrenchContact::ExternalWrenchContact(model::RobotWrapper::FrameIndex frame_index,
-- 
2.43.0


From 177bb44c86d15c6f0b497c14db02ca031e817031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:01 +0000
Subject: [PATCH 18/40] fix: printing a very large task error overflowed the
 buffer

---
 src/placo/dynamics/dynamics_solver.cpp     | 4 ++--
 src/placo/kinematics/kinematics_solver.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/dynamics/dynamics_solver.cpp b/src/placo/dynamics/dynamics_solver.cpp
index 1edcd73..af7adaa 100644
--- a/src/placo/dynamics/dynamics_solver.cpp
+++ b/src/placo/dynamics/dynamics_solver.cpp
@@ -372,9 +372,9 @@ void DynamicsSolver::dump_status_stream(std::ostream& stream)
     }
     stream << std::endl;
     char buffer[128];
-    sprintf(buffer, "    - Error: %.06f [%s]\n", task->error.norm(), task->error_unit().c_str());
+    snprintf(buffer, sizeof(buffer), "    - Error: %.06f [%s]\n", task->error.norm(), task->error_unit().c_str());
     stream << buffer;
-    sprintf(buffer, "    - DError: %.06f [%s]\n", task->derror.norm(), task->error_unit().c_str());
+    snprintf(buffer, sizeof(buffer), "    - DError: %.06f [%s]\n", task->derror.norm(), task->error_unit().c_str());
     stream << buffer << std::endl;
   }
 }
diff --git a/src/placo/kinematics/kinematics_solver.cpp b/src/placo/kinematics/kinematics_solver.cpp
index 8fbd85b..bc9c3c9 100644
--- a/src/placo/kinematics/kinematics_solver.cpp
+++ b/src/placo/kinematics/kinematics_solver.cpp
@@ -509,7 +509,7 @@ void KinematicsSolver::dump_status_stream(std::ostream& stream)
     }
     stream << std::endl;
     char buffer[128];
-    sprintf(buffer, "    - Error: %.06f [%s]\n", task->error_norm(), task->error_unit().c_str());
+    snprintf(buffer, sizeof(buffer), "    - Error: %.06f [%s]\n", task->error_norm(), task->error_unit().c_str());
     stream << buffer << std::endl;
   }
 }
-- 
2.43.0


From 05f510a050e32bf4281b11b1295d76e1a7ebfa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 19/40] fix: the ZMP velocity of a LIPM trajectory had the
 wrong sign on the jerk

---
 src/placo/humanoid/lipm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/lipm.cpp b/src/placo/humanoid/lipm.cpp
index 3e9ca1b..1e95559 100644
--- a/src/placo/humanoid/lipm.cpp
+++ b/src/placo/humanoid/lipm.cpp
@@ -37,7 +37,7 @@ Eigen::VectorXd LIPM::Trajectory::zmp(double t, double omega_2)
 
 Eigen::VectorXd LIPM::Trajectory::dzmp(double t, double omega_2)
 {
-  return vel(t) + (1 / omega_2) * jerk(t);
+  return vel(t) - (1 / omega_2) * jerk(t);
 }
 
 LIPM::LIPM()
-- 
2.43.0


From add8eccadb6cc8c81f3494ffa5bc2968463ff57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 20/40] fix: the opposite footstep kept the cached polygon of
 the given footstep

---
 src/placo/humanoid/footsteps_planner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/placo/humanoid/footsteps_planner.cpp b/src/placo/humanoid/footsteps_planner.cpp
index a9262bd..51d8f71 100644
--- a/src/placo/humanoid/footsteps_planner.cpp
+++ b/src/placo/humanoid/footsteps_planner.cpp
@@ -301,6 +301,7 @@ FootstepsPlanner::Footstep FootstepsPlanner::opposite_footstep(FootstepsPlanner:
 {
   footstep.frame = parameters.opposite_frame(footstep.side, footstep.frame, d_x, d_y, d_theta);
   footstep.side = HumanoidRobot::other_side(footstep.side);
+  footstep.computed_polygon = false;
 
   return footstep;
 }
-- 
2.43.0


From bfc5c1d2602ed14af43e73902b8477e79c4be965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 21/40] fix: reading a previous support overwrote the parts of
 the trajectory

---
 src/placo/humanoid/walk_pattern_generator.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 2df25ab..fe0d42f 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -280,12 +280,9 @@ FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_next_support(dou
 
 FootstepsPlanner::Support WalkPatternGenerator::Trajectory::get_prev_support(double t, int n)
 {
-  TrajectoryPart& part = _findPart(parts, t);
-  for (int i = 0; i < n; i++)
-  {
-    part = _findPart(parts, part.t_start - 1e-4);
-  }
-  return T * part.support;
+  int index;
+  _findPart(parts, t, &index);
+  return T * parts[std::max(0, index - n)].support;
 }
 
 std::vector<FootstepsPlanner::Support> WalkPatternGenerator::Trajectory::get_supports()
-- 
2.43.0


From 762ea92a20f5cdaab4fb9c828c12007469cc409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 22/40] fix: the velocity of a foot raised an error in double
 support instead of being zero

---
 src/placo/humanoid/walk_pattern_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index fe0d42f..51b1974 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -124,7 +124,7 @@ Eigen::Affine3d WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Right)
+  if (is_flying(HumanoidRobot::Left, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
@@ -134,7 +134,7 @@ Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_left(double t)
 Eigen::Vector3d WalkPatternGenerator::Trajectory::get_v_world_right(double t)
 {
   TrajectoryPart& part = _findPart(parts, t);
-  if (part.support.side() == HumanoidRobot::Left)
+  if (is_flying(HumanoidRobot::Right, t))
   {
     return T.linear() * part.swing_trajectory.vel(t);
   }
-- 
2.43.0


From 7964310d9936381bf38785fc81e75aa637ab622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 23/40] fix: updating the supports moved the next footstep but
 kept its cached polygon

---
 src/placo/humanoid/walk_pattern_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 51b1974..215166a 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -771,6 +771,8 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
   Eigen::Vector2d world_next_zmp_val = p_world_support + R_world_support * support_next_zmp->value;
   supports[1].footsteps[0].frame.translation().x() = world_next_zmp_val(0);
   supports[1].footsteps[0].frame.translation().y() = world_next_zmp_val(1);
+  supports[1].footsteps[0].computed_polygon = false;
+  supports[1].computed_polygon = false;
 
   // Updating current support remaining duration
   double support_remaining_time = std::max(1e-3, log(tau->value(0)) / omega - elapsed_time);
-- 
2.43.0


From d783fb0bafa26c8b0db7bc520feccddfc36844cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 24/40] fix: the mirrored DCM offset polygon of right supports
 was computed and not used

---
 src/placo/humanoid/walk_pattern_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/placo/humanoid/walk_pattern_generator.cpp b/src/placo/humanoid/walk_pattern_generator.cpp
index 215166a..fda20d5 100644
--- a/src/placo/humanoid/walk_pattern_generator.cpp
+++ b/src/placo/humanoid/walk_pattern_generator.cpp
@@ -736,7 +736,7 @@ std::vector<FootstepsPlanner::Support> WalkPatternGenerator::update_supports(
       point(0) = -point(0);
       point(1) = -point(1);
     }
-    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), parameters.dcm_offset_polygon))
+    problem.add_constraint(PolygonConstraint::in_polygon_xy(support_dcm_offset->expr(), dcm_offset_polygon))
         .configure(ProblemConstraint::Soft, w_viability);
   }
   else
-- 
2.43.0


From 76cf87c7f040e78208cd2b980d809bd5001e73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 25/40] fix: the errors of the feet positions were reported as
 orientation errors

---
 src/placo/humanoid/walk_tasks.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.cpp b/src/placo/humanoid/walk_tasks.cpp
index 8f46098..9ccc3ec 100644
--- a/src/placo/humanoid/walk_tasks.cpp
+++ b/src/placo/humanoid/walk_tasks.cpp
@@ -150,8 +150,8 @@ std::map<std::string, Eigen::Vector3d> WalkTasks::get_tasks_error()
   std::map<std::string, Eigen::Vector3d> error;
   error["left_foot_orientation"] = left_foot_task.orientation->error();
   error["right_foot_orientation"] = right_foot_task.orientation->error();
-  error["left_foot_orientation"] = left_foot_task.position->error();
-  error["right_foot_orientation"] = right_foot_task.position->error();
+  error["left_foot_position"] = left_foot_task.position->error();
+  error["right_foot_position"] = right_foot_task.position->error();
   error["trunk_orientation"] = trunk_orientation_task->error();
   if (trunk_mode)
   {
-- 
2.43.0


From b77ed858b907781468296f778d25e99dab0026a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 26/40] fix: the integral and last error of the DCM controller
 started uninitialised

---
 src/placo/humanoid/walk_tasks.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/walk_tasks.h b/src/placo/humanoid/walk_tasks.h
index 38a43b6..3bf6f65 100644
--- a/src/placo/humanoid/walk_tasks.h
+++ b/src/placo/humanoid/walk_tasks.h
@@ -48,7 +48,7 @@ public:
   double K_d = 0.;
 
   double lambda = 0.01;
-  Eigen::Vector2d integral;
-  Eigen::Vector2d last_error;
+  Eigen::Vector2d integral = Eigen::Vector2d::Zero();
+  Eigen::Vector2d last_error = Eigen::Vector2d::Zero();
 };
 }  // namespace placo::humanoid
\ No newline at end of file
-- 
2.43.0


From 4be4839b3addc10dca191618a8f5901f5a66376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 27/40] fix: the coefficient rows of the quintic swing foot had
 18 entries instead of 6

---
 src/placo/humanoid/swing_foot_quintic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/placo/humanoid/swing_foot_quintic.cpp b/src/placo/humanoid/swing_foot_quintic.cpp
index 25fd927..5e38042 100644
--- a/src/placo/humanoid/swing_foot_quintic.cpp
+++ b/src/placo/humanoid/swing_foot_quintic.cpp
@@ -5,7 +5,7 @@ namespace placo::humanoid
 {
 Eigen::VectorXd quintic_pos_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << pow(t, 5), pow(t, 4), pow(t, 3), pow(t, 2), pow(t, 1), 1;
 
@@ -14,7 +14,7 @@ Eigen::VectorXd quintic_pos_times(double t)
 
 Eigen::VectorXd quintic_d_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 5 * pow(t, 4), 4 * pow(t, 3), 3 * pow(t, 2), 2 * pow(t, 1), 1, 0;
 
@@ -23,7 +23,7 @@ Eigen::VectorXd quintic_d_times(double t)
 
 Eigen::VectorXd quintic_dd_times(double t)
 {
-  Eigen::VectorXd times(18);
+  Eigen::VectorXd times(6);
 
   times << 20 * pow(t, 3), 12 * pow(t, 2), 6 * pow(t, 1), 2, 0, 0;
 
-- 
2.43.0


From 68e70da30b6850a7f17f4c089465975ef067b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 28/40] fix: the centre of mass velocity assumed 20 actuated
 joints

---
 src/placo/humanoid/humanoid_robot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/placo/humanoid/humanoid_robot.cpp b/src/placo/humanoid/humanoid_robot.cpp
index cd38c52..c55b0fb 100644
--- a/src/placo/humanoid/humanoid_robot.cpp
+++ b/src/placo/humanoid/humanoid_robot.cpp
@@ -140,7 +140,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   // CoM Jacobians
   Eigen::Matrix3Xd J_C = com_jacobian();
   Eigen::Matrix3Xd J_u_C = J_C.leftCols(6);
-  Eigen::Matrix3Xd J_a_C = J_C.rightCols(20);
+  Eigen::Matrix3Xd J_a_C = J_C.rightCols(model.nv - 6);
 
   // Support foot
   Eigen::MatrixXd J_contact = frame_jacobian(support_frame, pinocchio::ReferenceFrame::LOCAL);
@@ -151,7 +151,7 @@ Eigen::Vector3d HumanoidRobot::get_com_velocity(Side support, Eigen::Vector3d om
   Eigen::MatrixXd J(6, J_contact.cols());
   J << J_contact.topRows(3), J_IMU.bottomRows(3);
   Eigen::MatrixXd J_u = J.leftCols(6);
-  Eigen::MatrixXd J_a = J.rightCols(20);
+  Eigen::MatrixXd J_a = J.rightCols(model.nv - 6);
 
   Eigen::MatrixXd J_u_inv = J_u.inverse();
 
-- 
2.43.0


From cc8f74e376417369cc3b01ad5c53b23091033dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:20 +0000
Subject: [PATCH 29/40] fix: reading the solver of the walk tasks returned a
 copy that freed the tasks of the solver

---
 bindings/expose-walk-pattern-generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-walk-pattern-generator.cpp b/bindings/expose-walk-pattern-generator.cpp
index 705461b..2b3c4f0 100644
--- a/bindings/expose-walk-pattern-generator.cpp
+++ b/bindings/expose-walk-pattern-generator.cpp
@@ -132,8 +132,9 @@ void exposeWalkPatternGenerator()
             }
             return dict;
           })
-      .add_property(
-          "solver", +[](WalkTasks& tasks) { return *tasks.solver; })
+      .add_property("solver", make_function(
+                                  +[](WalkTasks& tasks) -> KinematicsSolver& { return *tasks.solver; },
+                                  return_value_policy<reference_existing_object>()))
       .add_property("scaled", &WalkTasks::scaled, &WalkTasks::scaled)
       .add_property("left_foot_task", &WalkTasks::left_foot_task)
       .add_property("right_foot_task", &WalkTasks::right_foot_task)
-- 
2.43.0


From 64ab15abc5cbc74ae3bfbe9cc676fd33d65c8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:21 +0000
Subject: [PATCH 30/40] fix: cubic swing foot trajectories left their start,
 end and duration uninitialised

---
 src/placo/humanoid/swing_foot_cubic.cpp | 10 ++++++----
 src/placo/humanoid/swing_foot_cubic.h   |  1 -
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/placo/humanoid/swing_foot_cubic.cpp b/src/placo/humanoid/swing_foot_cubic.cpp
index be93d71..31f0974 100644
--- a/src/placo/humanoid/swing_foot_cubic.cpp
+++ b/src/placo/humanoid/swing_foot_cubic.cpp
@@ -20,6 +20,9 @@ SwingFootCubic::Trajectory SwingFootCubic::make_trajectory(double t_start, doubl
                                                            Eigen::Vector3d start_vel)
 {
   SwingFootCubic::Trajectory trajectory;
+  trajectory.t_start = t_start;
+  trajectory.t_end = t_start + (1 - elapsed_ratio) * virt_duration;
+  trajectory.virt_duration = virt_duration;
 
   trajectory.x.add_point(t_start, start.x(), start_vel.x());
   trajectory.y.add_point(t_start, start.y(), start_vel.y());
@@ -27,7 +30,6 @@ SwingFootCubic::Trajectory SwingFootCubic::make_trajectory(double t_start, doubl
 
   double half_duration = virt_duration / 2.;
   double virt_t_start = t_start - elapsed_ratio * virt_duration;
-  double t_end = t_start + (1 - elapsed_ratio) * virt_duration;
 
   std::vector<double> t;
   if (rise_ratio > 0)
@@ -48,9 +50,9 @@ SwingFootCubic::Trajectory SwingFootCubic::make_trajectory(double t_start, doubl
     }
   }
 
-  trajectory.x.add_point(t_end, target.x(), 0.);
-  trajectory.y.add_point(t_end, target.y(), 0.);
-  trajectory.z.add_point(t_end, target.z(), 0.);
+  trajectory.x.add_point(trajectory.t_end, target.x(), 0.);
+  trajectory.y.add_point(trajectory.t_end, target.y(), 0.);
+  trajectory.z.add_point(trajectory.t_end, target.z(), 0.);
 
   return trajectory;
 }
diff --git a/src/placo/humanoid/swing_foot_cubic.h b/src/placo/humanoid/swing_foot_cubic.h
index 54dd870..b7bb590 100644
--- a/src/placo/humanoid/swing_foot_cubic.h
+++ b/src/placo/humanoid/swing_foot_cubic.h
@@ -22,7 +22,6 @@ public:
     placo::tools::CubicSpline y;
     placo::tools::CubicSpline z;
 
-    double t_start;
     double virt_duration;
   };
 
-- 
2.43.0


From 0ce93135b1f37bd1d7a126692208e2a96ccba9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:22 +0000
Subject: [PATCH 31/40] fix: Segment.end setter wrote the start point

---
 bindings/expose-tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 6ff38ad..47d9295 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -88,7 +88,7 @@ void exposeTools()
 
   class__<Segment>("Segment", init<Eigen::Vector2d, Eigen::Vector2d>())
       .add_property("start", &Segment::start, &Segment::start)
-      .add_property("end", &Segment::end, &Segment::start)
+      .add_property("end", &Segment::end, &Segment::end)
       .def("norm", &Segment::norm)
       .def("is_parallel", &Segment::is_parallel)
       .def("is_point_aligned", &Segment::is_point_aligned)
-- 
2.43.0


From 7aa6cf92af70fd3ac7a8e9250d23356276ecc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:22 +0000
Subject: [PATCH 32/40] fix: LineContact.R_world_surface was bound on
 PointContact

---
 bindings/expose-dynamics.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index f4744e1..6ccc508 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -77,8 +77,8 @@ void exposeDynamics()
       .def_readwrite("length", &LineContact::length)
       .def("zmp", &LineContact::zmp)
       .add_property(
-          "R_world_surface", +[](PointContact& contact) { return contact.R_world_surface; },
-          +[](PointContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
+          "R_world_surface", +[](LineContact& contact) { return contact.R_world_surface; },
+          +[](LineContact& contact, Eigen::Matrix3d R) { contact.R_world_surface = R; });
 
   class__<ExternalWrenchContact, bases<Contact>>("ExternalWrenchContact", init<RobotWrapper::FrameIndex>())
       .add_property("frame_index", &ExternalWrenchContact::frame_index)
-- 
2.43.0


From 24a836b5c18c1cef28dc499cfc11635dfa2dc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:22 +0000
Subject: [PATCH 33/40] fix: DynamicsSolver.robot returned a copy of the robot

---
 bindings/expose-dynamics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index 6ccc508..e47f0b9 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -128,8 +128,9 @@ void exposeDynamics()
       .def("remove_constraint", &DynamicsSolver::remove_constraint)
       .def("set_kp", &DynamicsSolver::set_kp)
       .def("set_kd", &DynamicsSolver::set_kd)
-      .add_property(
-          "robot", +[](const DynamicsSolver& solver) { return solver.robot; })
+      .add_property("robot", make_function(
+                                 +[](const DynamicsSolver& solver) -> RobotWrapper& { return solver.robot; },
+                                 return_value_policy<reference_existing_object>()))
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-- 
2.43.0


From 231c5543fcec28533798b12afd07ccf80fdc63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:22 +0000
Subject: [PATCH 34/40] fix: get_frame_hessian accepted unknown frame names

---
 bindings/expose-robot-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index 25b9ba0..a4711d9 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -56,7 +56,7 @@ void exposeRobotType(class_<RobotType, W1>& type)
       .def(
           "get_frame_hessian",
           +[](RobotType& robot, const std::string frame, const std::string joint) {
-            return robot.get_frame_hessian(robot.model.getFrameId(frame), robot.get_joint_v_offset(joint));
+            return robot.get_frame_hessian(robot.get_frame_index(frame), robot.get_joint_v_offset(joint));
           })
       .def("get_T_world_fbase", &RobotType::get_T_world_fbase)
       .def("set_T_world_fbase", &RobotType::set_T_world_fbase)
-- 
2.43.0


From 4967901857c6a74440585bde8418d7d9ec61cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:39 +0000
Subject: [PATCH 35/40] fix: setting the frame, size or footsteps from Python
 kept a stale support polygon

---
 bindings/expose-footsteps.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index 1dca123..7ac402d 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -22,16 +22,30 @@ void exposeFootsteps()
 
   class__<FootstepsPlanner::Footstep>("Footstep", init<double, double>())
       .add_property("side", &FootstepsPlanner::Footstep::side, &FootstepsPlanner::Footstep::side)
-      .add_property("foot_length", &FootstepsPlanner::Footstep::foot_length, &FootstepsPlanner::Footstep::foot_length)
-      .add_property("foot_width", &FootstepsPlanner::Footstep::foot_width, &FootstepsPlanner::Footstep::foot_width)
+      .add_property(
+          "foot_length", &FootstepsPlanner::Footstep::foot_length,
+          +[](FootstepsPlanner::Footstep& footstep, double foot_length) {
+            footstep.foot_length = foot_length;
+            footstep.computed_polygon = false;
+          })
+      .add_property(
+          "foot_width", &FootstepsPlanner::Footstep::foot_width,
+          +[](FootstepsPlanner::Footstep& footstep, double foot_width) {
+            footstep.foot_width = foot_width;
+            footstep.computed_polygon = false;
+          })
       .add_property(
           "frame", +[](FootstepsPlanner::Footstep& footstep) { return footstep.frame; },
-          &FootstepsPlanner::Footstep::frame)
+          +[](FootstepsPlanner::Footstep& footstep, const Eigen::Affine3d& frame) {
+            footstep.frame = frame;
+            footstep.computed_polygon = false;
+          })
       .def(
           "set_frame_xy",
           +[](FootstepsPlanner::Footstep& footstep, double x, double y) {
             footstep.frame.translation().x() = x;
             footstep.frame.translation().y() = y;
+            footstep.computed_polygon = false;
           })
       .def("support_polygon", &FootstepsPlanner::Footstep::support_polygon)
       .def("overlap", &FootstepsPlanner::Footstep::overlap)
@@ -49,7 +63,12 @@ void exposeFootsteps()
           "set_start", +[](FootstepsPlanner::Support& support, bool b) { support.start = b; })
       .def(
           "set_end", +[](FootstepsPlanner::Support& support, bool b) { support.end = b; })
-      .add_property("footsteps", &FootstepsPlanner::Support::footsteps, &FootstepsPlanner::Support::footsteps)
+      .add_property(
+          "footsteps", make_getter(&FootstepsPlanner::Support::footsteps),
+          +[](FootstepsPlanner::Support& support, const std::vector<FootstepsPlanner::Footstep>& footsteps) {
+            support.footsteps = footsteps;
+            support.computed_polygon = false;
+          })
       .add_property("t_start", &FootstepsPlanner::Support::t_start, &FootstepsPlanner::Support::t_start)
       .add_property("elapsed_ratio", &FootstepsPlanner::Support::elapsed_ratio,
                     &FootstepsPlanner::Support::elapsed_ratio)
-- 
2.43.0


From 4fd97478320059f5a7a60af50c6ae30dd9feab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:39 +0000
Subject: [PATCH 36/40] fix: truncate_supports read outside of the supports

---
 bindings/expose-footsteps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/expose-footsteps.cpp b/bindings/expose-footsteps.cpp
index 7ac402d..0496d02 100644
--- a/bindings/expose-footsteps.cpp
+++ b/bindings/expose-footsteps.cpp
@@ -95,6 +95,11 @@ void exposeFootsteps()
               head.push_back(supports[i]);
             }
 
+            if (add_end && (head.empty() || (!head.back().end && index == (int)supports.size())))
+            {
+              throw std::out_of_range("No support to complete the end support with");
+            }
+
             if (add_end && !head.back().end)
             {
               FootstepsPlanner::Support end_support({ head.back().footsteps[0] });
-- 
2.43.0


From d89bbd014c21e73276a67151469093a9ab636b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:39 +0000
Subject: [PATCH 37/40] fix: converting a Python sequence leaked a reference to
 each element

---
 bindings/expose-utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/expose-utils.hpp b/bindings/expose-utils.hpp
index 39d99f0..26a7e05 100644
--- a/bindings/expose-utils.hpp
+++ b/bindings/expose-utils.hpp
@@ -34,7 +34,8 @@ struct custom_vector_from_seq
     v->reserve(l);
     for (int i = 0; i < l; i++)
     {
-      v->push_back(extract<containedType>(PySequence_GetItem(obj_ptr, i)));
+      handle<> item(PySequence_GetItem(obj_ptr, i));
+      v->push_back(extract<containedType>(item.get()));
     }
     data->convertible = storage;
   }
-- 
2.43.0


From 4426c9201a9ea66af399d3729afebb7a45a2e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:00 +0000
Subject: [PATCH 38/40] fix: elements of Python vectors of Eigen vectors and
 matrices could not be read by index

---
 bindings/expose-eigen.cpp | 4 ++--
 bindings/expose-tools.cpp | 2 +-
 bindings/expose-utils.hpp | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/bindings/expose-eigen.cpp b/bindings/expose-eigen.cpp
index 5c6455a..bcd9b5b 100644
--- a/bindings/expose-eigen.cpp
+++ b/bindings/expose-eigen.cpp
@@ -28,8 +28,8 @@ struct Affine3d_to_np
 void exposeEigen()
 {
   // Vectors of points
-  exposeStdVector<Eigen::Vector2d>("vector_Vector2d");
-  exposeStdVector<Eigen::Vector3d>("vector_Vector3d");
+  exposeStdVector<Eigen::Vector2d, true>("vector_Vector2d");
+  exposeStdVector<Eigen::Vector3d, true>("vector_Vector3d");
 
   eigenpy::enableEigenPy();
 
diff --git a/bindings/expose-tools.cpp b/bindings/expose-tools.cpp
index 47d9295..918bd8a 100644
--- a/bindings/expose-tools.cpp
+++ b/bindings/expose-tools.cpp
@@ -44,7 +44,7 @@ void exposeTools()
   exposeStdVector<int>("vector_int");
   exposeStdVector<double>("vector_double");
   exposeStdVector<std::string>("vector_string");
-  exposeStdVector<Eigen::MatrixXd>("vector_MatrixXd");
+  exposeStdVector<Eigen::MatrixXd, true>("vector_MatrixXd");
 
   // exposeStdMap<std::string, double>("map_string_double");
 
diff --git a/bindings/expose-utils.hpp b/bindings/expose-utils.hpp
index 26a7e05..fd0a2a9 100644
--- a/bindings/expose-utils.hpp
+++ b/bindings/expose-utils.hpp
@@ -53,15 +53,16 @@ bool is_not_registered()
 /**
  * @brief Exposes a given type for std::vector
  * @tparam T type
+ * @tparam NoProxy should elements be returned by value (needed for types that are not exposed as classes)
  * @param name name of the type as exposed in Python
  */
-template <typename T>
+template <typename T, bool NoProxy = false>
 void exposeStdVector(const std::string& class_name)
 {
   typedef typename std::vector<T> vector_T;
 
   if (is_not_registered<vector_T>()) {
-    class_<vector_T>(class_name.c_str()).def(vector_indexing_suite<vector_T>());
+    class_<vector_T>(class_name.c_str()).def(vector_indexing_suite<vector_T, NoProxy>());
 
     custom_vector_from_seq<T>();
   }
-- 
2.43.0


From a042bc6600f140b87aed4a51bde132a48afd377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:37 +0000
Subject: [PATCH 39/40] fix: get_contact read outside of the contacts

---
 bindings/expose-dynamics.cpp      | 2 +-
 bindings/expose-robot-wrapper.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/expose-dynamics.cpp b/bindings/expose-dynamics.cpp
index e47f0b9..bfc49b2 100644
--- a/bindings/expose-dynamics.cpp
+++ b/bindings/expose-dynamics.cpp
@@ -134,7 +134,7 @@ void exposeDynamics()
       .def(
           "count_contacts", +[](DynamicsSolver& solver) { return solver.contacts.size(); })
       .def(
-          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts[i]; },
+          "get_contact", +[](DynamicsSolver& solver, int i) -> Contact& { return *solver.contacts.at(i); },
           return_internal_reference<>())
       .def<PositionTask& (DynamicsSolver::*)(std::string, Eigen::Vector3d)>(
           "add_position_task", &DynamicsSolver::add_position_task, return_internal_reference<>())
diff --git a/bindings/expose-robot-wrapper.cpp b/bindings/expose-robot-wrapper.cpp
index a4711d9..9fc8266 100644
--- a/bindings/expose-robot-wrapper.cpp
+++ b/bindings/expose-robot-wrapper.cpp
@@ -161,7 +161,7 @@ void exposeRobotWrapper()
       .add_property("parentA", &RobotWrapper::Collision::parentA)
       .add_property("parentB", &RobotWrapper::Collision::parentB)
       .def(
-          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts[index]; });
+          "get_contact", +[](RobotWrapper::Collision& collision, int index) { return collision.contacts.at(index); });
 
   class__<RobotWrapper::Distance>("Distance")
       .add_property("objA", &RobotWrapper::Distance::objA)
-- 
2.43.0


From 4cff4b71a129b23300ad4c628011a6f0ca22cbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:46 +0000
Subject: [PATCH 40/40] fix: planning before configuring a footsteps planner
 used uninitialised targets

---
 src/placo/humanoid/footsteps_planner_naive.h      | 4 ++--
 src/placo/humanoid/footsteps_planner_repetitive.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/placo/humanoid/footsteps_planner_naive.h b/src/placo/humanoid/footsteps_planner_naive.h
index 24ead20..1d35e28 100644
--- a/src/placo/humanoid/footsteps_planner_naive.h
+++ b/src/placo/humanoid/footsteps_planner_naive.h
@@ -29,8 +29,8 @@ protected:
   int max_steps = 100;
 
   // Targetted position for the robot
-  Eigen::Affine3d T_world_targetLeft;
-  Eigen::Affine3d T_world_targetRight;
+  Eigen::Affine3d T_world_targetLeft = Eigen::Affine3d::Identity();
+  Eigen::Affine3d T_world_targetRight = Eigen::Affine3d::Identity();
 
   // Dimension of the accessibility window for the opposite foot
   double accessibility_width = 0.025;
diff --git a/src/placo/humanoid/footsteps_planner_repetitive.h b/src/placo/humanoid/footsteps_planner_repetitive.h
index 77cf63d..9e3fb72 100644
--- a/src/placo/humanoid/footsteps_planner_repetitive.h
+++ b/src/placo/humanoid/footsteps_planner_repetitive.h
@@ -29,12 +29,12 @@ public:
 
 protected:
   // Step configuration
-  double d_x;
-  double d_y;
-  double d_theta;
+  double d_x = 0.;
+  double d_y = 0.;
+  double d_theta = 0.;
 
   // Number of steps to plan
-  int nb_steps;
+  int nb_steps = 0;
 
   /**
    * @brief Generate the footsteps
-- 
2.43.0

