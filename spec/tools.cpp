// UNITS: tools
#include "spec.h"
#include <stdexcept>
#include "placo/tools/axises_mask.h"
#include "placo/tools/cubic_spline.h"
#include "placo/tools/cubic_spline_3d.h"
#include "placo/tools/directions.h"
#include "placo/tools/polynom.h"
#include "placo/tools/prioritized.h"
#include "placo/tools/segment.h"
#include "placo/tools/utils.h"

using namespace placo::tools;
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace spec
{
// ------------------------------------------------------------------ splines
SPECS("P=T01;F=placo::tools::CubicSpline::CubicSpline(bool)")
void spline_ctor(CubicSpline& self, bool angular)
{
  self.angular = angular;
  self.dirty = true;
}

SPECS("P=T01;F=placo::tools::CubicSpline::add_point(double,double,double)")
void spline_add_point(CubicSpline& self, double t, double x, double dx)
{
  bool first = self._points.size() == 0;
  if (!first && t <= self._points.back().t)
  {
    throw std::runtime_error("order");
  }
  double value = x;
  if (self.angular && !first)
  {
    double last = self._points.back().x;
    value = last + wrap_angle(x - last);
  }
  CubicSpline::Point p = { t, value, dx };
  self._points.push_back(p);
  self.dirty = true;
}

SPECS("P=T01;F=placo::tools::CubicSpline::clear();ignore=dirty,_splines")
void spline_clear(CubicSpline& self)
{
  self._points.clear();
}

SPECS("P=T01;F=placo::tools::CubicSpline::duration() const")
double spline_duration(const CubicSpline& self)
{
  if (self._points.size() == 0)
  {
    return 0;
  }
  return self._points.back().t - self._points.front().t;
}

SPECS("P=T01;F=placo::tools::CubicSpline::fit(double,double,double,double,double,double)")
CubicSpline::Polynom spline_fit(double t1, double x1, double dx1, double t2, double x2, double dx2)
{
  // the cubic with value x1, slope dx1 at t1 and value x2, slope dx2 at t2
  Eigen::Matrix4d M;
  M << t1 * t1 * t1, t1 * t1, t1, 1,  //
      3 * t1 * t1, 2 * t1, 1, 0,      //
      t2 * t2 * t2, t2 * t2, t2, 1,   //
      3 * t2 * t2, 2 * t2, 1, 0;
  Eigen::Vector4d c = M.inverse() * Eigen::Vector4d(x1, dx1, x2, dx2);
  CubicSpline::Polynom p = { c[0], c[1], c[2], c[3] };
  return p;
}

SPECS("P=T01;F=placo::tools::CubicSpline::compute_splines()")
void compute_splines(CubicSpline& self)
{
  self._splines.clear();
  for (int i = 0; i + 1 < self._points.size(); i++)
  {
    const CubicSpline::Point& a = self._points[i];
    const CubicSpline::Point& b = self._points[i + 1];
    CubicSpline::Spline s = { CubicSpline::fit(0, a.x, a.dx, b.t - a.t, b.x, b.dx), a.t, b.t };
    self._splines.push_back(s);
  }
}

SPECS("P=T01;F=placo::tools::CubicSpline::interpolation(double,placo::tools::CubicSpline::ValueType)")
double interpolation(CubicSpline& self, double t, CubicSpline::ValueType type)
{
  if (self.dirty)
  {
    self.compute_splines();
    self.dirty = false;
  }
  if (self._points.size() == 0)
  {
    return 0;
  }
  if (self._points.size() == 1)
  {
    return type == CubicSpline::Value ? self._points[0].x : (type == CubicSpline::Speed ? self._points[0].dx : 0.);
  }
  double u = t;
  if (u < self._splines.front().t_start)
  {
    u = self._splines.front().t_start;
  }
  if (u > self._splines.back().t_end)
  {
    u = self._splines.back().t_end;
  }
  for (int i = 0; i < self._splines.size(); i++)
  {
    const CubicSpline::Spline& s = self._splines[i];
    if (u >= s.t_start && u <= s.t_end)
    {
      double d = u - s.t_start;
      if (type == CubicSpline::Value)
      {
        return s.poly.a * d * d * d + s.poly.b * d * d + s.poly.c * d + s.poly.d;
      }
      if (type == CubicSpline::Speed)
      {
        return 3 * s.poly.a * d * d + 2 * s.poly.b * d + s.poly.c;
      }
      if (type == CubicSpline::Acceleration)
      {
        return 6 * s.poly.a * d + 2 * s.poly.b;
      }
    }
  }
  return 0;
}

SPECS("P=T01;F=placo::tools::CubicSpline::pos(double)")
double spline_pos(CubicSpline& self, double t)
{
  return self.interpolation(t, CubicSpline::Value);
}

SPECS("P=T01;F=placo::tools::CubicSpline::vel(double)")
double spline_vel(CubicSpline& self, double t)
{
  return self.interpolation(t, CubicSpline::Speed);
}

SPECS("P=T01;F=placo::tools::CubicSpline::acc(double)")
double spline_acc(CubicSpline& self, double t)
{
  return self.interpolation(t, CubicSpline::Acceleration);
}

SPECS("P=T01;F=placo::tools::CubicSpline3D::add_point(double,Matrix<3,1>,Matrix<3,1>)")
void spline3_add_point(CubicSpline3D& self, double t, Vector3d x, Vector3d dx)
{
  self.xSpline.add_point(t, x(0), dx(0));
  self.ySpline.add_point(t, x(1), dx(1));
  self.zSpline.add_point(t, x(2), dx(2));
}

SPECS("P=T01;F=placo::tools::CubicSpline3D::clear();ignore=dirty,_splines")
void spline3_clear(CubicSpline3D& self)
{
  self.xSpline.clear();
  self.ySpline.clear();
  self.zSpline.clear();
}

SPECS("P=T01;F=placo::tools::CubicSpline3D::duration() const")
double spline3_duration(const CubicSpline3D& self)
{
  return self.xSpline.duration();
}

SPECS("P=T01;F=placo::tools::CubicSpline3D::pos(double)")
Vector3d spline3_pos(CubicSpline3D& self, double t)
{
  return Vector3d(self.xSpline.pos(t), self.ySpline.pos(t), self.zSpline.pos(t));
}

SPECS("P=T01;F=placo::tools::CubicSpline3D::vel(double)")
Vector3d spline3_vel(CubicSpline3D& self, double t)
{
  return Vector3d(self.xSpline.vel(t), self.ySpline.vel(t), self.zSpline.vel(t));
}

SPECS("P=T01;F=placo::tools::CubicSpline3D::acc(double)")
Vector3d spline3_acc(CubicSpline3D& self, double t)
{
  return Vector3d(self.xSpline.acc(t), self.ySpline.acc(t), self.zSpline.acc(t));
}

// ------------------------------------------------------------------ polynomials
SPECS("P=T01;F=placo::tools::Polynom::Polynom(Matrix<-1,1>)")
void polynom_ctor(Polynom& self, VectorXd coefficients)
{
  self.coefficients = coefficients;
}

SPECS("P=T01;F=placo::tools::Polynom::derivative_coefficient(int,int)")
int derivative_coefficient(int degree, int derivative)
{
  // degree! / (degree - derivative)!
  if (derivative > degree)
  {
    return 0;
  }
  int c = 1;
  for (int k = 0; k < derivative; k++)
  {
    c = c * (degree - k);
  }
  return c;
}

SPECS("P=T01;F=placo::tools::Polynom::value(double,int)")
double polynom_value(Polynom& self, double x, int differentiate)
{
  double p = 0;
  double power = 1;
  int n = self.coefficients.size();
  for (int order = differentiate; order < n; order++)
  {
    p += self.coefficients[n - 1 - order] * Polynom::derivative_coefficient(order, differentiate) * power;
    power = power * x;
  }
  return p;
}

// ------------------------------------------------------------------ geometry
SPECS("P=T02;F=placo::tools::interpolate_frames(Affine3d,Affine3d,double)")
Affine3d interpolate_frames(Affine3d a, Affine3d b, double u)
{
  Affine3d r;
  r.linear() = Eigen::Quaterniond(a.rotation()).slerp(u, Eigen::Quaterniond(b.rotation())).matrix();
  r.translation() = a.translation() + u * (b.translation() - a.translation());
  return r;
}

SPECS("P=T02;F=placo::tools::wrap_angle(double)")
double wrap_angle(double angle)
{
  return std::atan2(std::sin(angle), std::cos(angle));
}

SPECS("P=T02;F=placo::tools::frame_yaw(Matrix<3,3>)")
double frame_yaw(Matrix3d R)
{
  return std::atan2(R(1, 0), R(0, 0));
}

SPECS("P=T02;F=placo::tools::rotation_from_axis(string,Matrix<3,1>)")
Matrix3d rotation_from_axis(std::string axis, Vector3d vector)
{
  if (axis != "x" && axis != "y" && axis != "z")
  {
    throw std::runtime_error("axis");
  }
  vector.normalize();
  Vector3d a = axis == "x" ? Vector3d(1, 0, 0) : (axis == "y" ? Vector3d(0, 1, 0) : Vector3d(0, 0, 1));
  Vector3d w = a.cross(vector);
  double theta = safe_acos(a.dot(vector));
  if (w.norm() == 0)
  {
    w = axis == "x" ? Vector3d(0, 1, 0) : (axis == "y" ? Vector3d(0, 0, 1) : Vector3d(1, 0, 0));
  }
  else
  {
    w.normalize();
  }
  return pinocchio::exp3(w * theta);
}

SPECS("P=T02;F=placo::tools::flatten_on_floor(const Affine3d&)")
Affine3d flatten_on_floor(const Affine3d& T)
{
  Affine3d r;
  r.linear() = Eigen::AngleAxisd(frame_yaw(T.rotation()), Vector3d(0, 0, 1)).toRotationMatrix();
  r.translation() = Vector3d(T.translation().x(), T.translation().y(), 0);
  return r;
}

SPECS("P=T02;F=placo::tools::pin_se3_to_eigen")
Affine3d pin_se3_to_eigen(const pinocchio::GeometryData::SE3& se3)
{
  Affine3d r;
  r.linear() = se3.rotation();
  r.translation() = se3.translation();
  return r;
}

SPECS("P=T02;F=placo::tools::safe_acos(double)")
double safe_acos(double v)
{
  return std::acos(v < -1 ? -1 : (v > 1 ? 1 : v));
}

SPECS("P=T02;F=placo::tools::optimal_transformation(Matrix<-1,-1>,Matrix<-1,-1>)")
Affine3d optimal_transformation(MatrixXd A, MatrixXd B)
{
  if (A.cols() != 3 || B.cols() != 3 || A.rows() != B.rows() || A.rows() < 3)
  {
    throw std::runtime_error("points");
  }
  Vector3d a = A.colwise().mean();
  Vector3d b = B.colwise().mean();
  MatrixXd Ac = A.rowwise() - a.transpose();
  MatrixXd Bc = B.rowwise() - b.transpose();
  Matrix3d H = Bc.transpose() * Ac;
  Eigen::JacobiSVD<Matrix3d> svd(H, Eigen::ComputeFullU | Eigen::ComputeFullV);
  Matrix3d U = svd.matrixU();
  Matrix3d V = svd.matrixV();
  Matrix3d R = V * U.transpose();
  if (R.determinant() < 0)
  {
    Matrix3d Z = Matrix3d::Identity();
    Z(2, 2) = -1;
    R = V * Z * U.transpose();
  }
  Affine3d T;
  T.linear() = R;
  T.translation() = a - R * b;
  return T;
}

// ------------------------------------------------------------------ direction sets
SPECS("P=T02;F=placo::tools::directions_2d(int)")
MatrixXd directions_2d(int n)
{
  MatrixXd d(n, 2);
  for (int i = 0; i < n; i++)
  {
    d(i, 0) = std::cos(i * 2 * M_PI / n);
    d(i, 1) = std::sin(i * 2 * M_PI / n);
  }
  return d;
}

SPECS("P=T02;F=placo::tools::directions_3d(int,double)")
MatrixXd directions_3d(int n, double epsilon)
{
  // Fibonacci lattice
  MatrixXd d(n, 3);
  double golden = (std::sqrt(5) + 1) / 2;
  for (int i = 0; i < n; i++)
  {
    double alpha = 2 * M_PI * std::fmod(i / golden, 1);
    double beta = std::acos(1 - 2 * (i + epsilon) / (n - 1 + 2 * epsilon));
    d(i, 0) = std::sin(beta) * std::cos(alpha);
    d(i, 1) = std::sin(beta) * std::sin(alpha);
    d(i, 2) = std::cos(beta);
  }
  return d;
}

// ------------------------------------------------------------------ segments
SPECS("P=T03;F=placo::tools::Segment::Segment(const Matrix<2,1>&,const Matrix<2,1>&)")
void segment_ctor(Segment& self, const Vector2d& start, const Vector2d& end)
{
  self.start = start;
  self.end = end;
}

SPECS("P=T03;F=placo::tools::Segment::norm()")
double segment_norm(Segment& self)
{
  return (self.end - self.start).norm();
}

SPECS("P=T03;F=placo::tools::Segment::is_parallel(const placo::tools::Segment &,double)")
bool is_parallel(Segment& self, const Segment& s, double epsilon)
{
  Vector2d u = self.end - self.start;
  Vector2d v = s.end - s.start;
  return std::fabs(u(0) * v(1) - u(1) * v(0)) / (u.norm() * v.norm()) < epsilon;
}

SPECS("P=T03;F=placo::tools::Segment::is_point_aligned(const Matrix<2,1>&,double)")
bool is_point_aligned(Segment& self, const Vector2d& p, double epsilon)
{
  return std::fabs((self.start - p).norm()) < epsilon || self.is_parallel(Segment(self.start, p), epsilon);
}

SPECS("P=T03;F=placo::tools::Segment::is_segment_aligned(const placo::tools::Segment &,double)")
bool is_segment_aligned(Segment& self, const Segment& s, double epsilon)
{
  return self.is_point_aligned(s.start, epsilon) && self.is_point_aligned(s.end, epsilon);
}

SPECS("P=T03;F=placo::tools::Segment::is_point_in_segment(const Matrix<2,1>&,double)")
bool is_point_in_segment(Segment& self, const Vector2d& p, double epsilon)
{
  Vector2d u = self.end - self.start;
  double d = u.dot(p - self.start);
  return d >= 0 && d <= u.dot(u) && self.is_segment_aligned(Segment(self.start, p), epsilon);
}

SPECS("P=T03;F=placo::tools::Segment::get_lambdas(const placo::tools::Segment &)")
std::pair<double, double> get_lambdas(Segment& self, const Segment& s)
{
  if (self.is_parallel(s, 1e-5))
  {
    throw std::runtime_error("parallel");
  }
  // start + l1 u = s.start + l2 v
  Vector2d u = self.end - self.start;
  Vector2d v = s.end - s.start;
  Vector2d d = s.start - self.start;
  double det = u(0) * v(1) - u(1) * v(0);
  return std::pair<double, double>((d(0) * v(1) - d(1) * v(0)) / det, (d(0) * u(1) - d(1) * u(0)) / det);
}

SPECS("P=T03;F=placo::tools::Segment::intersects(placo::tools::Segment &)")
bool intersects(Segment& self, Segment& s)
{
  if (self.is_parallel(s, 1e-5))
  {
    throw std::runtime_error("parallel");
  }
  auto l = self.get_lambdas(s);
  auto m = s.get_lambdas(self);
  return l.first >= 0 && l.first <= 1 && m.first >= 0 && m.first <= 1;
}

SPECS("P=T03;F=placo::tools::Segment::line_pass_through(const placo::tools::Segment &)")
bool line_pass_through(Segment& self, const Segment& s)
{
  double l = self.get_lambdas(s).first;
  return 0 <= l && l <= 1;
}

SPECS("P=T03;F=placo::tools::Segment::half_line_pass_through(const placo::tools::Segment &)")
bool half_line_pass_through(Segment& self, const Segment& s)
{
  auto l = self.get_lambdas(s);
  return 0 <= l.first && l.first <= 1 && 0 <= l.second;
}

SPECS("P=T03;F=placo::tools::Segment::lines_intersection(const placo::tools::Segment &)")
Vector2d lines_intersection(Segment& self, const Segment& s)
{
  double l = self.get_lambdas(s).first;
  return (1 - l) * self.start + l * self.end;
}

// ------------------------------------------------------------------ masks and priorities
SPECS("P=T04;F=placo::tools::AxisesMask::AxisesMask()")
void mask_ctor(AxisesMask& self)
{
  self.indices = { 0, 1, 2 };
  self.frame = AxisesMask::TaskFrame;
  self.R_local_world = Matrix3d::Identity();
  self.R_custom_world = Matrix3d::Identity();
}

SPECS("P=T04;F=placo::tools::AxisesMask::set_axises(string,placo::tools::AxisesMask::ReferenceFrame)")
void set_axises(AxisesMask& self, std::string axises, AxisesMask::ReferenceFrame frame)
{
  self.indices.clear();
  self.frame = frame;
  for (char c : axises)
  {
    char l = std::tolower(c);
    if (l != 'x' && l != 'y' && l != 'z')
    {
      throw std::runtime_error("axis");
    }
    self.indices.push_back(l == 'x' ? 0 : (l == 'y' ? 1 : 2));
  }
}

SPECS("P=T04;F=placo::tools::AxisesMask::set_axises(string,string)")
void set_axises_str(AxisesMask& self, std::string axises, std::string frame)
{
  if (frame != "task" && frame != "world" && frame != "local" && frame != "custom")
  {
    throw std::runtime_error("frame");
  }
  AxisesMask::ReferenceFrame f = AxisesMask::TaskFrame;
  if (frame == "local")
  {
    f = AxisesMask::LocalFrame;
  }
  if (frame == "custom")
  {
    f = AxisesMask::CustomFrame;
  }
  self.set_axises(axises, f);
}

SPECS("P=T04;F=placo::tools::AxisesMask::apply(Matrix<-1,-1>)")
MatrixXd mask_apply(AxisesMask& self, MatrixXd M)
{
  MatrixXd R = M;
  if (self.frame == AxisesMask::CustomFrame)
  {
    R = self.R_custom_world * M;
  }
  if (self.frame == AxisesMask::LocalFrame)
  {
    R = self.R_local_world * M;
  }
  return R(self.indices, Eigen::all);
}

SPECS("P=T04;F=placo::tools::priority_from_string(string)")
Prioritized::Priority priority_from_string(std::string p)
{
  if (p == "hard")
  {
    return Prioritized::Hard;
  }
  if (p == "scaled")
  {
    return Prioritized::Scaled;
  }
  if (p == "soft")
  {
    return Prioritized::Soft;
  }
  throw std::runtime_error("priority");
}

SPECS("P=T04;F=placo::tools::Prioritized::Prioritized()")
void prioritized_ctor(Prioritized& self)
{
  self.priority = Prioritized::Soft;
  self.weight = 1;
}

SPECS("P=T04;F=placo::tools::Prioritized::configure(string,string,double)")
void configure_str(Prioritized& self, std::string name, std::string priority, double weight)
{
  self.configure(name, priority_from_string(priority), weight);
}

SPECS("P=T04;F=placo::tools::Prioritized::configure(string,placo::tools::Prioritized::Priority,double)")
void configure(Prioritized& self, std::string name, Prioritized::Priority priority, double weight)
{
  self.name = name;
  self.priority = priority;
  self.weight = weight;
}

SPECS("P=T04;F=placo::tools::Prioritized::priority_name()")
std::string priority_name(Prioritized& self)
{
  if (self.priority == Prioritized::Hard)
  {
    return "hard";
  }
  if (self.priority == Prioritized::Soft)
  {
    return "soft";
  }
  if (self.priority == Prioritized::Scaled)
  {
    return "scaled";
  }
  throw std::runtime_error("priority");
}
}  // namespace spec
