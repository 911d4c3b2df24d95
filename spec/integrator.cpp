// UNITS: problem_expr problem tools
#include "spec.h"
#include <stdexcept>
#include <unsupported/Eigen/MatrixFunctions>
#include "placo/problem/problem.h"
#include "placo/problem/integrator.h"
#include "placo/problem/problem_polynom.h"

using namespace placo::problem;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace spec
{
SPECS("P=A05;F=placo::problem::Integrator::AB_matrices(Matrix<-1,-1>&,int,double)")
std::pair<MatrixXd, VectorXd> AB_matrices(MatrixXd& M, int order, double dt)
{
  // exact discretisation: exp(dt [[A, B], [0, 0]]) = [[Ad, Bd], [., .]]
  MatrixXd E = (dt * M).exp();
  return std::pair<MatrixXd, VectorXd>(E.topLeftCorner(order, order), E.col(order).head(order));
}

SPECS("P=A05;F=placo::problem::Integrator::upper_shift_matrix(int)")
MatrixXd upper_shift_matrix(int order)
{
  MatrixXd M = MatrixXd::Zero(order + 1, order + 1);
  for (int k = 0; k < order; k++)
  {
    M(k, k + 1) = 1.0;
  }
  return M;
}

SPECS("P=A05;F=placo::problem::Integrator::check_diff(int,int,bool)")
void check_diff(int order, int diff, bool allow_all)
{
  if (diff > order || diff < -1 || (diff == -1 && !allow_all))
  {
    throw std::runtime_error("diff");
  }
}

SPECS("P=A05;F=placo::problem::Integrator::Integrator(placo::problem::Variable &,placo::problem::Expression,Matrix<-1,-1>,double)")
void ctor(Integrator& self, Variable& variable, Expression X0, MatrixXd M, double dt)
{
  self.variable = &variable;
  self.X0 = X0;
  self.M = M;
  self.dt = dt;
  self.order = M.rows() - 1;
  self.N = variable.k_end - variable.k_start;
  auto AB = Integrator::AB_matrices(self.M, self.order, dt);
  self.A = AB.first;
  self.B = AB.second;
  self.version = 0;
  self.t_start = 0.;
  // x_k = A^k x_0 + sum_j A^(k-1-j) B u_j
  self.final_transition_matrix = MatrixXd::Zero(self.order, self.N);
  MatrixXd Ak = MatrixXd::Identity(self.order, self.order);
  self.a_powers[0] = Ak;
  for (int step = 0; step < self.N; step++)
  {
    self.final_transition_matrix.col(self.N - 1 - step) = Ak * self.B;
    Ak = self.A * Ak;
    self.a_powers[step + 1] = Ak;
  }
}

SPECS("P=A05;F=placo::problem::Integrator::expr(int,int)")
Expression expr(Integrator& self, int step, int diff)
{
  Integrator::check_diff(self.order, diff, true);
  int n = self.variable->k_end - self.variable->k_start;
  int k = step == -1 ? n : step;
  if (k < 0 || k > n)
  {
    throw std::runtime_error("step");
  }
  if (diff == self.order)
  {
    return self.variable->expr(k, 1);
  }
  int first = diff == -1 ? 0 : diff;
  int rows = diff == -1 ? self.order : 1;
  Expression e;
  e.A = MatrixXd::Zero(rows, self.variable->k_end);
  e.b = VectorXd::Zero(rows);
  e.A.block(0, self.variable->k_start, rows, k) = self.final_transition_matrix.block(first, self.N - k, rows, k);
  if (diff == -1)
  {
    return e + self.a_powers[k] * self.X0;
  }
  return e + (self.a_powers[k] * self.X0).slice(diff, 1);
}

SPECS("P=A05;F=placo::problem::Integrator::expr_t(double,int)")
Expression expr_t(Integrator& self, double t, int diff)
{
  spec::require(self.M.rows() == self.order + 1 && self.M.cols() == self.order + 1 && self.order >= 1 && self.dt > 0);
  spec::require(self.X0.A.rows() == self.order && self.X0.b.rows() == self.order);
  spec::require(self.N == self.variable->k_end - self.variable->k_start);
  spec::require(self.final_transition_matrix.rows() == self.order && self.final_transition_matrix.cols() == self.N);
  double s = t - self.t_start;
  int n = self.variable->k_end - self.variable->k_start;
  int step = std::max<int>(std::min<int>(n - 1, s / self.dt), 0);
  if (diff == self.order)
  {
    return self.variable->expr(step, 1);
  }
  auto AB = Integrator::AB_matrices(self.M, self.order, s - step * self.dt);
  Expression e = AB.first * self.expr(step, -1) + MatrixXd(AB.second) * self.variable->expr(step, 1);
  return diff > -1 ? e.slice(diff, 1) : e;
}

SPECS("P=A05;F=placo::problem::Integrator::Trajectory::value(double,int)")
double trajectory_value(Integrator::Trajectory& self, double t, int diff)
{
  spec::require(self.M.rows() == self.order + 1 && self.M.cols() == self.order + 1 && self.order >= 0 && self.dt > 0);
  spec::require(self.variable_value.size() >= 1);
  double s = t - self.t_start;
  Integrator::check_diff(self.order, diff, false);
  int k = std::floor(s / self.dt);
  k = k < 0 ? 0 : k;
  int last = self.variable_value.size() - 1;
  k = k > last ? last : k;
  if (diff == self.order)
  {
    return self.variable_value[k];
  }
  double r = std::max(0., std::min(self.dt, s - k * self.dt));
  auto AB = Integrator::AB_matrices(self.M, self.order, r);
  VectorXd X = AB.first * self.keyframes[k] + AB.second * self.variable_value[k];
  return X[diff];
}

SPECS("P=A05;F=placo::problem::Integrator::Trajectory::duration()")
double trajectory_duration(Integrator::Trajectory& self)
{
  return self.dt * self.keyframes.size();
}

SPECS("P=A05;F=placo::problem::Integrator::value(double,int)")
double integrator_value(Integrator& self, double t, int diff)
{
  spec::require(self.M.rows() == self.order + 1 && self.M.cols() == self.order + 1 && self.order >= 0 && self.dt > 0);
  auto& r = self.trajectory;
  spec::require(r.M.rows() == r.order + 1 && r.M.cols() == r.order + 1 && r.order >= 0 && r.dt > 0);
  self.update_trajectory();
  return self.trajectory.value(t, diff);
}

SPECS("P=A05;F=placo::problem::Integrator::get_trajectory()")
Integrator::Trajectory get_trajectory(Integrator& self)
{
  self.update_trajectory();
  return self.trajectory;
}

SPECS("P=A05;F=placo::problem::Integrator::update_trajectory()")
void update_trajectory(Integrator& self)
{
  if (self.variable->version == 0)
  {
    throw std::runtime_error("not solved");
  }
  if (self.version == self.variable->version)
  {
    return;
  }
  self.version = self.variable->version;
  self.trajectory.M = self.M;
  self.trajectory.dt = self.dt;
  self.trajectory.order = self.order;
  self.trajectory.t_start = self.t_start;
  self.trajectory.variable_value = self.variable->value;
  VectorXd X = self.X0.value(self.variable->problem->x);
  self.trajectory.keyframes[0] = X;
  for (int k = 1; k <= self.variable->k_end - self.variable->k_start; k++)
  {
    X = self.A * X + self.B * self.variable->value[k - 1];
    self.trajectory.keyframes[k] = X;
  }
}

SPECS("P=A05;F=placo::problem::ProblemPolynom::expr(double,int)")
Expression polynom_expr(ProblemPolynom& self, double x, int derivative)
{
  int n = self.variable->size();
  MatrixXd c = MatrixXd::Zero(1, n);
  double p = 1;
  for (int order = derivative; order < n; order++)
  {
    c(0, n - 1 - order) = placo::tools::Polynom::derivative_coefficient(order, derivative) * p;
    p = p * x;
  }
  return c * self.variable->expr(-1, -1);
}

SPECS("P=A05;F=placo::problem::ProblemPolynom::get_polynom()")
placo::tools::Polynom get_polynom(ProblemPolynom& self)
{
  return placo::tools::Polynom(self.variable->value);
}
}  // namespace spec
