// UNITS: problem_expr problem tools kin_solver kin_tasks
#include "spec.h"
#include <stdexcept>
#include "placo/kinematics/kinematics_solver.h"
#include "placo/problem/polygon_constraint.h"
#include "pinocchio/algorithm/geometry.hpp"
#include <pinocchio/spatial/explog.hpp>
#include <unsupported/Eigen/MatrixFunctions>

using namespace placo::kinematics;
using placo::model::RobotWrapper;
using placo::problem::Expression;
using placo::problem::Problem;
using placo::problem::ProblemConstraint;
using placo::tools::AxisesMask;
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace spec
{
typedef pinocchio::FrameIndex FI;
typedef KinematicsSolver KS;

// the rows of M a mask selects, in its reference frame
static MatrixXd masked(const AxisesMask& mask, const MatrixXd& M)
{
  MatrixXd R = M;
  if (mask.frame == AxisesMask::CustomFrame)
  {
    R = mask.R_custom_world * M;
  }
  if (mask.frame == AxisesMask::LocalFrame)
  {
    R = mask.R_local_world * M;
  }
  return R(mask.indices, Eigen::all);
}

// a new task or constraint: soft, weight 1, not attached to a solver
template <typename T>
static void detached(T& self)
{
  self.solver = nullptr;
  self.solver_memory = false;
  self.priority = placo::tools::Prioritized::Soft;
  self.weight = 1.;
}

static MatrixXd linear(const MatrixXd& J)
{
  return J.topRows(3);
}

static MatrixXd angular(const MatrixXd& J)
{
  return J.bottomRows(3);
}

// ------------------------------------------------------------------ K01 position, orientation, frame and CoM tasks
SPECS("P=K01;F=placo::kinematics::PositionTask::update()")
void position(PositionTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Affine3d T = robot.get_T_world_frame(self.frame_index);
  self.mask.R_local_world = T.linear().transpose();
  self.A = masked(self.mask, linear(robot.frame_jacobian(self.frame_index, pinocchio::LOCAL_WORLD_ALIGNED)));
  self.b = masked(self.mask, self.target_world - T.translation());
}

SPECS("P=K01;F=placo::kinematics::OrientationTask::update()")
void orientation(OrientationTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Matrix3d R = robot.get_T_world_frame(self.frame_index).linear();
  self.mask.R_local_world = self.R_world_frame.transpose();
  self.A = masked(self.mask, angular(robot.frame_jacobian(self.frame_index, pinocchio::WORLD)));
  Matrix3d D = self.R_world_frame * R.transpose();
  self.b = masked(self.mask, pinocchio::log3(D));
}

SPECS("P=K01;F=placo::kinematics::CoMTask::update()")
void com(CoMTask& self)
{
  self.A = masked(self.mask, self.solver->robot.com_jacobian());
  self.b = masked(self.mask, self.target_world - self.solver->robot.com_world());
}

SPECS("P=K01;F=placo::kinematics::FrameTask::configure(string,string,double,double)")
void frame_configure(FrameTask& self, std::string name, std::string priority, double position_weight,
                     double orientation_weight)
{
  PositionTask* p = self.position;
  OrientationTask* o = self.orientation;
  p->configure(name + "_position", priority, position_weight);
  o->configure(name + "_orientation", priority, orientation_weight);
}

SPECS("P=K01;F=placo::kinematics::FrameTask::get_T_world_frame() const")
Affine3d frame_get(const FrameTask& self)
{
  Affine3d T;
  T.linear() = self.orientation->R_world_frame;
  T.translation() = self.position->target_world;
  return T;
}

SPECS("P=K01;F=placo::kinematics::FrameTask::set_T_world_frame(Affine3d)")
void frame_set(FrameTask& self, Affine3d T)
{
  self.orientation->R_world_frame = T.linear();
  self.position->target_world = T.translation();
}

SPECS("P=K01;F=placo::kinematics::PositionTask::PositionTask(unsigned long,Matrix<3,1>)")
void position_ctor(PositionTask& self, FI frame, Vector3d target)
{
  detached(self);
  self.frame_index = frame;
  self.target_world = target;
}

SPECS("P=K01;F=placo::kinematics::OrientationTask::OrientationTask(unsigned long,Matrix<3,3>)")
void orientation_ctor(OrientationTask& self, FI frame, Matrix3d R)
{
  detached(self);
  self.frame_index = frame;
  self.R_world_frame = R;
}

SPECS("P=K01;F=placo::kinematics::CoMTask::CoMTask(Matrix<3,1>)")
void com_ctor(CoMTask& self, Vector3d target)
{
  detached(self);
  self.target_world = target;
}

SPECS("P=K01;F=placo::kinematics::FrameTask::FrameTask(placo::kinematics::PositionTask*,placo::kinematics::OrientationTask*)")
void frame_ctor(FrameTask& self, PositionTask* p, OrientationTask* o)
{
  self.position = p;
  self.orientation = o;
}

SPECS("P=K01;F=placo::kinematics::Task::error()")
MatrixXd task_error(Task& self)
{
  return self.b;
}

SPECS("P=K01;F=placo::kinematics::Task::error_norm()")
double task_error_norm(Task& self)
{
  return self.b.norm();
}

// ------------------------------------------------------------------ K02 tasks between two frames
SPECS("P=K02;F=placo::kinematics::RelativePositionTask::update()")
void relative_position(RelativePositionTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Affine3d T_a = robot.get_T_world_frame(self.frame_a);
  Affine3d T_b = robot.get_T_world_frame(self.frame_b);
  self.A = masked(self.mask, robot.relative_position_jacobian(self.frame_a, self.frame_b));
  self.b = masked(self.mask, self.target - (T_a.inverse() * T_b).translation());
}

SPECS("P=K02;F=placo::kinematics::RelativeOrientationTask::update()")
void relative_orientation(RelativeOrientationTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Affine3d T_a = robot.get_T_world_frame(self.frame_a);
  Affine3d T_b = robot.get_T_world_frame(self.frame_b);
  Affine3d T_a_b = T_a.inverse() * T_b;
  MatrixXd Ja = angular(robot.frame_jacobian(self.frame_a, pinocchio::WORLD));
  MatrixXd Jb = angular(robot.frame_jacobian(self.frame_b, pinocchio::WORLD));
  self.A = masked(self.mask, T_a.linear().transpose() * (Jb - Ja));
  self.b = masked(self.mask, pinocchio::log3(self.R_a_b * T_a_b.linear().transpose()));
}

SPECS("P=K02;F=placo::kinematics::RelativeFrameTask::configure(string,string,double,double)")
void relative_configure(RelativeFrameTask& self, std::string name, std::string priority, double position_weight,
                        double orientation_weight)
{
  self.position.configure(name + "_position", priority, position_weight);
  self.orientation.configure(name + "_orientation", priority, orientation_weight);
}

SPECS("P=K02;F=placo::kinematics::RelativeFrameTask::get_T_a_b() const")
Affine3d relative_get(const RelativeFrameTask& self)
{
  Affine3d T;
  T.linear() = self.orientation.R_a_b;
  T.translation() = self.position.target;
  return T;
}

SPECS("P=K02;F=placo::kinematics::RelativeFrameTask::set_T_a_b(Affine3d)")
void relative_set(RelativeFrameTask& self, Affine3d T)
{
  self.orientation.R_a_b = T.linear();
  self.position.target = T.translation();
}

SPECS("P=K02;F=placo::kinematics::RelativePositionTask::RelativePositionTask(unsigned long,unsigned long,Matrix<3,1>)")
void relative_position_ctor(RelativePositionTask& self, FI a, FI b, Vector3d target)
{
  detached(self);
  self.frame_a = a;
  self.frame_b = b;
  self.target = target;
}

SPECS("P=K02;F=placo::kinematics::RelativeOrientationTask::RelativeOrientationTask(unsigned long,unsigned long,Matrix<3,3>)")
void relative_orientation_ctor(RelativeOrientationTask& self, FI a, FI b, Matrix3d R)
{
  detached(self);
  self.frame_a = a;
  self.frame_b = b;
  self.R_a_b = R;
}

SPECS("P=K02;F=placo::kinematics::DistanceTask::update()")
void distance(DistanceTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Vector3d pa = robot.get_T_world_frame(self.frame_a).translation();
  Vector3d pb = robot.get_T_world_frame(self.frame_b).translation();
  MatrixXd Ja = linear(robot.frame_jacobian(self.frame_a, pinocchio::LOCAL_WORLD_ALIGNED));
  MatrixXd Jb = linear(robot.frame_jacobian(self.frame_b, pinocchio::LOCAL_WORLD_ALIGNED));
  Vector3d d = pb - pa;
  self.A = d.normalized().transpose() * (Jb - Ja);
  self.b(0, 0) = self.distance - d.norm();
}

SPECS("P=K02;F=placo::kinematics::DistanceTask::DistanceTask(unsigned long,unsigned long,double)")
void distance_ctor(DistanceTask& self, FI a, FI b, double distance)
{
  detached(self);
  self.frame_a = a;
  self.frame_b = b;
  self.distance = distance;
  self.b = MatrixXd(1, 1);
}

// ------------------------------------------------------------------ K03 the other tasks
SPECS("P=K03;F=placo::kinematics::AxisAlignTask::update()")
void axis_align(AxisAlignTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Vector3d target = self.targetAxis_world.normalized();
  Vector3d axis = (robot.get_T_world_frame(self.frame_index).rotation() * self.axis_frame).normalized();
  Vector3d normal = axis.cross(target);
  if (normal.norm() < 1e-12)
  {
    // parallel axes: any perpendicular direction will do
    normal = axis.unitOrthogonal();
  }
  Matrix3d R;
  R.col(0) = axis;
  R.col(2) = normal.normalized();
  R.col(1) = R.col(2).cross(axis);
  MatrixXd J = R.inverse() * angular(robot.frame_jacobian(self.frame_index, pinocchio::WORLD));
  self.A = J.bottomRows(2);
  self.b = Vector2d(0., placo::tools::safe_acos(axis.dot(target)));
}

SPECS("P=K03;F=placo::kinematics::AxisAlignTask::AxisAlignTask(unsigned long,Matrix<3,1>,Matrix<3,1>)")
void axis_align_ctor(AxisAlignTask& self, FI frame, Vector3d axis, Vector3d target)
{
  detached(self);
  self.frame_index = frame;
  self.axis_frame = axis;
  self.targetAxis_world = target;
}

SPECS("P=K03;F=placo::kinematics::CentroidalMomentumTask::update()")
void momentum(CentroidalMomentumTask& self)
{
  if (self.solver->dt == 0)
  {
    throw std::runtime_error("dt");
  }
  MatrixXd A = self.solver->robot.centroidal_map().bottomRows(3);
  self.A = masked(self.mask, A) / self.solver->dt;
  self.b = masked(self.mask, self.L_world);
}

SPECS("P=K03;F=placo::kinematics::CentroidalMomentumTask::CentroidalMomentumTask(Matrix<3,1>)")
void momentum_ctor(CentroidalMomentumTask& self, Vector3d L)
{
  detached(self);
  self.L_world = L;
}

SPECS("P=K03;F=placo::kinematics::GearTask::set_gear(string,string,double)")
void gear_set(GearTask& self, std::string target, std::string source, double ratio)
{
  std::map<int, double> m;
  int t = self.solver->robot.get_joint_v_offset(target);
  m[self.solver->robot.get_joint_v_offset(source)] = ratio;
  self.gears[t] = m;
}

SPECS("P=K03;F=placo::kinematics::GearTask::add_gear(string,string,double)")
void gear_add(GearTask& self, std::string target, std::string source, double ratio)
{
  int t = self.solver->robot.get_joint_v_offset(target);
  int s = self.solver->robot.get_joint_v_offset(source);
  self.gears[t][s] = ratio;
}

SPECS("P=K03;F=placo::kinematics::GearTask::update()")
void gear(GearTask& self)
{
  const VectorXd& q = self.solver->robot.state.q;
  self.A = MatrixXd::Zero(self.gears.size(), self.solver->N);
  self.b = MatrixXd::Zero(self.gears.size(), 1);
  int row = 0;
  for (auto& g : self.gears)
  {
    self.A(row, g.first) = -1;
    double sum = q[g.first + 1];
    for (auto& source : g.second)
    {
      self.A(row, source.first) = source.second;
      sum -= source.second * q[source.first + 1];
    }
    self.b(row, 0) = sum;
    row++;
  }
}

SPECS("P=K03;F=placo::kinematics::JointsTask::set_joint(string,double)")
void joints_set(JointsTask& self, std::string joint, double target)
{
  self.joints[joint] = target;
}

SPECS("P=K03;F=placo::kinematics::JointsTask::get_joint(string)")
double joints_get(JointsTask& self, std::string joint)
{
  if (self.joints.count(joint) == 0)
  {
    throw std::runtime_error("joint");
  }
  return self.joints[joint];
}

SPECS("P=K03;F=placo::kinematics::JointsTask::update()")
void joints(JointsTask& self)
{
  self.A = MatrixXd::Zero(self.joints.size(), self.solver->N);
  self.b = MatrixXd::Zero(self.joints.size(), 1);
  int row = 0;
  for (auto& j : self.joints)
  {
    self.A(row, self.solver->robot.get_joint_v_offset(j.first)) = 1;
    self.b(row, 0) = j.second - self.solver->robot.get_joint(j.first);
    row++;
  }
}

SPECS("P=K03;F=placo::kinematics::KineticEnergyRegularizationTask::update()")
void kinetic(KineticEnergyRegularizationTask& self)
{
  if (self.solver->dt == 0)
  {
    throw std::runtime_error("dt");
  }
  // |A dq|^2 = 1/2 v^T M v with v = dq / dt
  MatrixXd M = self.solver->robot.mass_matrix();
  self.A = M.sqrt() / (std::sqrt(2) * self.solver->dt);
  self.b = VectorXd::Zero(self.solver->N);
}

SPECS("P=K03;F=placo::kinematics::RegularizationTask::set_weight(double)")
void regularization_weight(RegularizationTask& self, double weight)
{
  self.default_weight = weight;
  self.dirty = true;
}

SPECS("P=K03;F=placo::kinematics::RegularizationTask::set_joint_weight(string,double)")
void regularization_joint_weight(RegularizationTask& self, std::string joint, double weight)
{
  self.joint_weights[joint] = weight;
  self.dirty = true;
}

SPECS("P=K03;F=placo::kinematics::RegularizationTask::update()")
void regularization(RegularizationTask& self)
{
  int N = self.solver->N;
  if (self.dirty)
  {
    self.W = std::sqrt(self.default_weight) * MatrixXd::Identity(N, N);
    for (auto& w : self.joint_weights)
    {
      int k = self.solver->robot.get_joint_v_offset(w.first);
      for (int i = 0; i < self.solver->robot.get_joint_v_size(w.first); i++)
      {
        self.W(k + i, k + i) = std::sqrt(w.second);
      }
    }
    self.dirty = false;
  }
  self.A = self.W.block(6, 0, N - 6, N);
  self.b = MatrixXd::Zero(N - 6, 1);
}

SPECS("P=K03;F=placo::kinematics::WheelTask::WheelTask(string,double,bool)")
void wheel_ctor(WheelTask& self, std::string joint, double radius, bool omniwheel)
{
  detached(self);
  self.joint = joint;
  self.radius = radius;
  self.omniwheel = omniwheel;
  self.T_world_surface = Affine3d::Identity();
}

SPECS("P=K03;F=placo::kinematics::WheelTask::update()")
void wheel(WheelTask& self)
{
  Affine3d T = self.T_world_surface.inverse() * self.solver->robot.get_T_world_frame(self.joint);
  // towards the surface, in the plane of the wheel
  Vector3d down(-T.linear()(2, 0), -T.linear()(2, 1), 0.);
  down.normalize();
  Affine3d C = Affine3d::Identity();
  C.linear().col(0) = T.linear().col(2).cross(Vector3d::UnitZ()).normalized();
  C.linear().col(1) = Vector3d::UnitZ().cross(C.linear().col(0));
  C.translation() = T.translation() + self.radius * (T.linear() * down);
  Affine3d W = C.inverse() * T;
  MatrixXd J = pinocchio::SE3(W.matrix()).toActionMatrix() * self.solver->robot.joint_jacobian(self.joint, "local");
  double z = C.translation().z();
  if (self.omniwheel)
  {
    self.A = J({ 0, 2 }, Eigen::all);
    self.b = Vector2d(0, -z);
  }
  else
  {
    self.A = J.topRows(3);
    self.b = Vector3d(0, 0, -z);
  }
}

SPECS("P=K03;F=placo::kinematics::ManipulabilityTask::mask_matrix(Matrix<-1,-1>)")
MatrixXd manipulability_mask(ManipulabilityTask& self, MatrixXd M)
{
  MatrixXd J = M.rightCols(M.cols() - 6);
  if (self.type == ManipulabilityTask::POSITION)
  {
    return J.block(0, 0, 3, M.cols() - 6);
  }
  if (self.type == ManipulabilityTask::ORIENTATION)
  {
    return J.block(3, 0, 3, M.cols() - 6);
  }
  return J.block(0, 0, 6, M.cols() - 6);
}

SPECS("P=K03;F=placo::kinematics::ManipulabilityTask::ManipulabilityTask(unsigned long,placo::kinematics::ManipulabilityTask::Type,double)")
void manipulability_ctor(ManipulabilityTask& self, FI frame, ManipulabilityTask::Type type, double lambda)
{
  detached(self);
  self.frame_index = frame;
  self.type = type;
  self.lambda = lambda;
  self.minimize = false;
  self.manipulability = 0.;
}

SPECS("P=K03;F=placo::kinematics::ManipulabilityTask::update()")
void manipulability(ManipulabilityTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  int N = self.solver->N;
  MatrixXd J = self.mask_matrix(robot.frame_jacobian(self.frame_index, pinocchio::LOCAL));
  MatrixXd JJ = J * J.transpose();
  MatrixXd inv = JJ.inverse();
  self.manipulability = std::sqrt(std::fmax(0., JJ.determinant()));
  robot.compute_hessians();
  VectorXd gradient = VectorXd::Zero(N - 6);
  for (int k = 6; k < N; k++)
  {
    MatrixXd H = self.mask_matrix(robot.get_frame_hessian(self.frame_index, k));
    MatrixXd JH = J * H.transpose();
    gradient(k - 6) = self.manipulability * JH.cwiseProduct(inv).sum();
  }
  MatrixXd I = self.lambda * MatrixXd::Identity(N, N);
  self.A = I.block(6, 0, N - 6, N);
  double sign = self.minimize ? -1. : 1.;
  self.b = (sign / (2. * self.lambda)) * gradient;
}

// ------------------------------------------------------------------ K04 assembling and solving
SPECS("P=K04;F=placo::kinematics::KinematicsSolver::mask_dof(string)")
void mask_dof(KS& self, std::string dof)
{
  int n = self.robot.get_joint_v_size(dof);
  for (int i = 0; i < n; i++)
  {
    self.masked_dof.insert(self.robot.get_joint_v_offset(dof) + i);
  }
}

SPECS("P=K04;F=placo::kinematics::KinematicsSolver::unmask_dof(string)")
void unmask_dof(KS& self, std::string dof)
{
  int n = self.robot.get_joint_v_size(dof);
  for (int i = 0; i < n; i++)
  {
    self.masked_dof.erase(self.robot.get_joint_v_offset(dof) + i);
  }
}

SPECS("P=K04;F=placo::kinematics::KinematicsSolver::mask_fbase(bool)")
void mask_fbase(KS& self, bool masked)
{
  self.masked_fbase = masked;
}

SPECS("P=K04;F=placo::kinematics::KinematicsSolver::enable_joint_limits(bool)")
void enable_joint_limits(KS& self, bool enable)
{
  self.joint_limits = enable;
}

SPECS("P=K04;F=placo::kinematics::KinematicsSolver::enable_velocity_limits(bool)")
void enable_velocity_limits(KS& self, bool enable)
{
  self.velocity_limits = enable;
}

SPECS("P=K04;F=placo::kinematics::KinematicsSolver::compute_limits_inequalities()")
void limits(KS& self)
{
  if (self.velocity_limits && self.dt == 0.)
  {
    throw std::runtime_error("dt");
  }
  int n = self.N - 6;
  const auto& model = self.robot.model;
  if (self.joint_limits)
  {
    // lower <= q + dq <= upper on every actuated degree of freedom
    VectorXd q = self.robot.state.q.tail(n);
    VectorXd upper = model.upperPositionLimit.tail(n);
    VectorXd lower = model.lowerPositionLimit.tail(n);
    self.problem.add_constraint(q + self.qd->expr(6) <= upper);
    self.problem.add_constraint(lower <= q + self.qd->expr(6));
  }
  if (self.velocity_limits)
  {
    // |dq| <= dt * limit
    VectorXd step = self.dt * model.velocityLimit.tail(n);
    self.problem.add_constraint(self.qd->expr(6) <= step);
    VectorXd back = -step;
    self.problem.add_constraint(back <= self.qd->expr(6));
  }
}

SPECS("P=K04;F=placo::kinematics::KinematicsSolver::solve(bool)")
VectorXd solve(KS& self, bool apply)
{
  Problem& problem = self.problem;
  if (self.qd == nullptr)
  {
    self.qd = &problem.add_variable(self.N);
  }
  problem.clear_constraints();
  self.has_scaling = false;
  for (auto task : self.tasks)
  {
    task->update();
    if (task->A.rows() > 0)
    {
      Expression e;
      if (task->priority == Task::Priority::Scaled)
      {
        if (!self.has_scaling)
        {
          self.has_scaling = true;
          if (self.scale_variable == nullptr)
          {
            self.scale_variable = &problem.add_variable(1);
          }
          problem.add_constraint(self.scale_variable->expr() >= 0);
          problem.add_constraint(self.scale_variable->expr() <= 1);
          problem.add_constraint(self.scale_variable->expr() == 1).configure(ProblemConstraint::Soft, 1.0);
        }
        // A dq - s b = 0
        Expression s = task->b * self.scale_variable->expr();
        e.A = -s.A;
        e.A.block(0, 0, task->A.rows(), task->A.cols()) += task->A;
        e.b = VectorXd::Zero(task->b.rows());
      }
      else
      {
        // A dq - b = 0
        e.A = task->A;
        e.b = -task->b;
      }
      problem.add_constraint(e == 0).configure(
          task->priority == Task::Priority::Soft ? ProblemConstraint::Soft : ProblemConstraint::Hard, task->weight);
    }
  }
  for (auto& k : self.masked_dof)
  {
    problem.add_constraint(self.qd->expr(k, 1) == 0);
  }
  if (self.masked_fbase)
  {
    problem.add_constraint(self.qd->expr(0, 6) == 0.);
  }
  self.compute_limits_inequalities();
  for (auto constraint : self.constraints)
  {
    constraint->add_constraint(problem);
  }
  problem.solve();
  VectorXd step = self.qd->value;
  if (self.has_scaling)
  {
    self.scale = self.scale_variable->value(0, 0);
  }
  if (apply)
  {
    VectorXd q = self.robot.state.q;
    VectorXd qd = self.robot.state.qd;
    self.robot.state.q = pinocchio::integrate(self.robot.model, q, step);
    if (self.dt > 0)
    {
      self.robot.state.qd = pinocchio::difference(self.robot.model, q, self.robot.state.q) / self.dt;
      self.robot.state.qdd = (self.robot.state.qd - qd) / self.dt;
    }
  }
  return step;
}

// ------------------------------------------------------------------ K05 constraints
static ProblemConstraint::Priority hard_or_soft(const Constraint& c)
{
  return c.priority == Constraint::Hard ? ProblemConstraint::Hard : ProblemConstraint::Soft;
}

SPECS("P=K05;F=placo::kinematics::AvoidSelfCollisionsConstraint::add_constraint(placo::problem::Problem&)")
void self_collisions(AvoidSelfCollisionsConstraint& self, Problem& problem)
{
  RobotWrapper& robot = self.solver->robot;
  auto distances = robot.distances();
  int n = 0;
  for (auto& d : distances)
  {
    n += d.min_distance < self.self_collisions_trigger ? 1 : 0;
  }
  if (n == 0)
  {
    return;
  }
  Expression e;
  e.A = MatrixXd(n, self.solver->N);
  e.b = VectorXd(n);
  int row = 0;
  for (auto& d : distances)
  {
    if (d.min_distance < self.self_collisions_trigger)
    {
      Vector3d normal = (d.pointB - d.pointA).normalized();
      if (d.min_distance < 0)
      {
        normal = -normal;
      }
      MatrixXd JA = pinocchio::SE3(Matrix3d::Identity(), -d.pointA).toActionMatrix() *
                    robot.joint_jacobian(d.parentA, pinocchio::ReferenceFrame::WORLD);
      MatrixXd JB = pinocchio::SE3(Matrix3d::Identity(), -d.pointB).toActionMatrix() *
                    robot.joint_jacobian(d.parentB, pinocchio::ReferenceFrame::WORLD);
      // distance + J dq >= margin
      e.A.row(row) = normal.transpose() * (JB.topRows(3) - JA.topRows(3));
      e.b[row] = d.min_distance - self.self_collisions_margin;
      row++;
    }
  }
  problem.add_constraint(e >= 0).configure(
      self.priority == Constraint::Soft ? ProblemConstraint::Soft : ProblemConstraint::Hard, self.weight);
}

SPECS("P=K05;F=placo::kinematics::CoMPolygonConstraint::add_constraint(placo::problem::Problem&)")
void com_polygon(CoMPolygonConstraint& self, Problem& problem)
{
  RobotWrapper& robot = self.solver->robot;
  Expression e;
  e.b = robot.com_world().head(2);
  e.A = robot.com_jacobian().topRows(2);
  if (self.dcm)
  {
    if (self.solver->dt == 0. || self.omega == 0.)
    {
      throw std::runtime_error("dcm");
    }
    MatrixXd J = e.A;
    e.A = J + J / (self.solver->dt * self.omega);
  }
  problem.add_constraint(placo::problem::PolygonConstraint::in_polygon_xy(e, self.polygon, self.margin))
      .configure(hard_or_soft(self), self.weight);
}

SPECS("P=K05;F=placo::kinematics::CoMPolygonConstraint::CoMPolygonConstraint(const std::vector<Matrix<2,1>>&,double)")
void com_polygon_ctor(CoMPolygonConstraint& self, const std::vector<Vector2d>& polygon, double margin)
{
  detached(self);
  self.polygon = polygon;
  self.margin = margin;
  self.omega = 0.;
  self.dcm = false;
}

// velocity of b with respect to a, in a
static MatrixXd relative_rotation(RobotWrapper& robot, FI a, FI b)
{
  MatrixXd Ja = robot.frame_jacobian(a, pinocchio::ReferenceFrame::LOCAL).bottomRows(3);
  MatrixXd Jb = robot.frame_jacobian(b, pinocchio::ReferenceFrame::LOCAL).bottomRows(3);
  return robot.get_T_a_b(a, b).linear() * Jb - Ja;
}

SPECS("P=K05;F=placo::kinematics::ConeConstraint::add_constraint(placo::problem::Problem&)")
void cone(ConeConstraint& self, Problem& problem)
{
  RobotWrapper& robot = self.solver->robot;
  MatrixXd J = relative_rotation(robot, self.frame_a, self.frame_b);
  Vector3d z = robot.get_T_a_b(self.frame_a, self.frame_b).rotation() * Vector3d::UnitZ();
  double current = std::atan2(z.y(), z.x());
  Expression e;
  e.A.resize(self.N, self.solver->N);
  e.b.resize(self.N);
  for (int k = 0; k < self.N; k++)
  {
    double a = current - self.range + 2 * self.range * k / self.N;
    Matrix3d R = Eigen::AngleAxisd(a, Vector3d::UnitZ()).toRotationMatrix();
    Vector3d zs = R.transpose() * z;
    e.A.row(k) = R.col(1).transpose() * J;
    e.b(k) = std::atan2(zs.x(), zs.z());
  }
  problem.add_constraint(e <= self.angle_max).configure(hard_or_soft(self), self.weight);
}

SPECS("P=K05;F=placo::kinematics::ConeConstraint::ConeConstraint(unsigned long,unsigned long,double)")
void cone_ctor(ConeConstraint& self, FI a, FI b, double angle_max)
{
  detached(self);
  self.frame_a = a;
  self.frame_b = b;
  self.angle_max = angle_max;
  self.N = 8;
  self.range = 0.25;
}

SPECS("P=K05;F=placo::kinematics::YawConstraint::add_constraint(placo::problem::Problem&)")
void yaw(YawConstraint& self, Problem& problem)
{
  RobotWrapper& robot = self.solver->robot;
  MatrixXd J = relative_rotation(robot, self.frame_a, self.frame_b);
  Vector3d x = robot.get_T_a_b(self.frame_a, self.frame_b).linear().col(0);
  Vector3d side = Vector3d::UnitZ().cross(x).normalized();
  Vector3d axis = x.cross(side).normalized();
  double angle = std::atan2(x.y(), x.x());
  Expression e;
  e.A.resize(2, self.solver->N);
  e.b.resize(2);
  MatrixXd row = axis.transpose() * J;
  e.A.row(0) = row;
  e.A.row(1) = -row;
  e.b(0) = angle;
  e.b(1) = -angle;
  problem.add_constraint(e <= self.angle_max).configure(hard_or_soft(self), self.weight);
}

SPECS("P=K05;F=placo::kinematics::YawConstraint::YawConstraint(unsigned long,unsigned long,double)")
void yaw_ctor(YawConstraint& self, FI a, FI b, double angle_max)
{
  detached(self);
  self.frame_a = a;
  self.frame_b = b;
  self.angle_max = angle_max;
}

SPECS("P=K05;F=placo::kinematics::DistanceConstraint::add_constraint(placo::problem::Problem&)")
void distance_constraint(DistanceConstraint& self, Problem& problem)
{
  RobotWrapper& robot = self.solver->robot;
  Vector3d d = robot.get_T_world_frame(self.frame_b).translation() - robot.get_T_world_frame(self.frame_a).translation();
  MatrixXd Ja = linear(robot.frame_jacobian(self.frame_a, pinocchio::LOCAL_WORLD_ALIGNED));
  MatrixXd Jb = linear(robot.frame_jacobian(self.frame_b, pinocchio::LOCAL_WORLD_ALIGNED));
  Expression e;
  e.A = d.normalized().transpose() * (Jb - Ja);
  e.b = VectorXd(1);
  e.b(0) = d.norm();
  problem.add_constraint(e <= self.distance_max).configure(hard_or_soft(self), self.weight);
}

SPECS("P=K05;F=placo::kinematics::DistanceConstraint::DistanceConstraint(unsigned long,unsigned long,double)")
void distance_constraint_ctor(DistanceConstraint& self, FI a, FI b, double distance_max)
{
  detached(self);
  self.frame_a = a;
  self.frame_b = b;
  self.distance_max = distance_max;
}

SPECS("P=K05;F=placo::kinematics::JointSpaceHalfSpacesConstraint::add_constraint(placo::problem::Problem&)")
void half_spaces(JointSpaceHalfSpacesConstraint& self, Problem& problem)
{
  int n = self.solver->N - 6;
  const VectorXd& q = self.solver->robot.state.q;
  if (self.A.rows() != self.b.rows() || self.A.cols() != q.rows())
  {
    throw std::runtime_error("dimensions");
  }
  // A (q + dq) <= b, without the floating base
  MatrixXd Aj = self.A.rightCols(self.A.cols() - 7);
  Expression e;
  e.A = MatrixXd::Zero(self.A.rows(), self.solver->N);
  e.A.block(0, 6, self.A.rows(), n) = Aj;
  e.b = Aj * q.segment(7, n);
  problem.add_constraint(e <= self.b).configure(hard_or_soft(self), self.weight);
}

SPECS("P=K05;F=placo::kinematics::JointSpaceHalfSpacesConstraint::JointSpaceHalfSpacesConstraint(const Matrix<-1,-1>,Matrix<-1,1>)")
void half_spaces_ctor(JointSpaceHalfSpacesConstraint& self, const MatrixXd A, VectorXd b)
{
  detached(self);
  self.A = A;
  self.b = b;
}

// ------------------------------------------------------------------ K06 what the solver holds
SPECS("P=K06,K04;F=placo::kinematics::KinematicsSolver::KinematicsSolver(placo::model::RobotWrapper&)")
void solver_ctor(KS& self, RobotWrapper& robot)
{
  spec::bind(self.robot, robot);
  self.N = robot.model.nv;
  self.masked_fbase = false;
  self.problem.use_sparsity = false;
  self.qd = nullptr;
  self.scale_variable = nullptr;
  self.dt = 0.;
  self.scale = 0.;
  self.has_scaling = false;
  self.joint_limits = true;
  self.velocity_limits = false;
  self.task_id = 0;
  self.constraint_id = 0;
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_task(placo::kinematics::Task&)")
void add_task(KS& self, Task& task)
{
  task.solver = &self;
  self.tasks.insert(&task);
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_constraint(placo::kinematics::Constraint&)")
void add_constraint(KS& self, Constraint& constraint)
{
  constraint.solver = &self;
  self.constraints.insert(&constraint);
}

SPECS("P=K06,M02;F=placo::kinematics::KinematicsSolver::remove_task(placo::kinematics::Task&)")
void remove_task(KS& self, Task& task)
{
  bool owned = task.solver_memory;
  self.tasks.erase(&task);
  if (owned)
  {
    delete &task;
  }
}

SPECS("P=K06,M02;F=placo::kinematics::KinematicsSolver::remove_task(placo::kinematics::FrameTask&)")
void remove_frame_task(KS& self, FrameTask& task)
{
  self.tasks.erase(task.position);
  self.tasks.erase(task.orientation);
  if (task.position->solver_memory)
  {
    delete task.position;
  }
  if (task.orientation->solver_memory)
  {
    delete task.orientation;
  }
}

SPECS("P=K06,M02;F=placo::kinematics::KinematicsSolver::remove_constraint(placo::kinematics::Constraint&)")
void remove_constraint(KS& self, Constraint& constraint)
{
  bool owned = constraint.solver_memory;
  self.constraints.erase(&constraint);
  if (owned)
  {
    delete &constraint;
  }
}

SPECS("P=K06,M02;F=placo::kinematics::KinematicsSolver::clear()")
void clear(KS& self)
{
  for (auto task : self.tasks)
  {
    if (task->solver_memory)
    {
      delete task;
    }
  }
  self.tasks.clear();
  for (auto constraint : self.constraints)
  {
    if (constraint->solver_memory)
    {
      delete constraint;
    }
  }
  self.constraints.clear();
}

SPECS("P=K06,M02;F=placo::kinematics::KinematicsSolver::~KinematicsSolver()")
void destroy(KS& self)
{
  self.clear();
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::tasks_count()")
int tasks_count(KS& self)
{
  return self.tasks.size();
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::get_tasks()")
std::set<Task*> get_tasks(KS& self)
{
  return self.tasks;
}

// every add_* creates the object from its arguments, in order, and registers it as owned by the solver
template <typename T>
static T& own_task(KS& self, T* task)
{
  self.task_id += 1;
  task->solver = &self;
  task->solver_memory = true;
  std::ostringstream name;
  name << "Task_" << self.task_id;
  task->name = name.str();
  self.tasks.insert(task);
  return *task;
}

template <typename T>
static T& own_constraint(KS& self, T* constraint)
{
  self.constraint_id += 1;
  constraint->solver = &self;
  constraint->solver_memory = true;
  std::ostringstream name;
  name << "Constraint_" << self.constraint_id;
  constraint->name = name.str();
  self.constraints.insert(constraint);
  return *constraint;
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_position_task(unsigned long,Matrix<3,1>)")
PositionTask& add_position(KS& self, FI frame, Vector3d target)
{
  return own_task(self, new PositionTask(frame, target));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_position_task(string,Matrix<3,1>)")
PositionTask& add_position_n(KS& self, std::string frame, Vector3d target)
{
  return own_task(self, new PositionTask(self.robot.get_frame_index(frame), target));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_relative_position_task(unsigned long,unsigned long,Matrix<3,1>)")
RelativePositionTask& add_relative_position(KS& self, FI a, FI b, Vector3d target)
{
  return own_task(self, new RelativePositionTask(a, b, target));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_relative_position_task(string,string,Matrix<3,1>)")
RelativePositionTask& add_relative_position_n(KS& self, std::string a, std::string b, Vector3d target)
{
  return own_task(self, new RelativePositionTask(self.robot.get_frame_index(a), self.robot.get_frame_index(b), target));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_com_task(Matrix<3,1>)")
CoMTask& add_com(KS& self, Vector3d target)
{
  return own_task(self, new CoMTask(target));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_orientation_task(unsigned long,Matrix<3,3>)")
OrientationTask& add_orientation(KS& self, FI frame, Matrix3d R)
{
  return own_task(self, new OrientationTask(frame, R));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_orientation_task(string,Matrix<3,3>)")
OrientationTask& add_orientation_n(KS& self, std::string frame, Matrix3d R)
{
  return own_task(self, new OrientationTask(self.robot.get_frame_index(frame), R));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_relative_orientation_task(unsigned long,unsigned long,Matrix<3,3>)")
RelativeOrientationTask& add_relative_orientation(KS& self, FI a, FI b, Matrix3d R)
{
  return own_task(self, new RelativeOrientationTask(a, b, R));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_relative_orientation_task(string,string,Matrix<3,3>)")
RelativeOrientationTask& add_relative_orientation_n(KS& self, std::string a, std::string b, Matrix3d R)
{
  return own_task(self, new RelativeOrientationTask(self.robot.get_frame_index(a), self.robot.get_frame_index(b), R));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_frame_task(unsigned long,Affine3d)")
FrameTask add_frame(KS& self, FI frame, Affine3d T)
{
  PositionTask& p = own_task(self, new PositionTask(frame, T.translation()));
  OrientationTask& o = own_task(self, new OrientationTask(frame, T.rotation()));
  return FrameTask(&p, &o);
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_frame_task(string,Affine3d)")
FrameTask add_frame_n(KS& self, std::string frame, Affine3d T)
{
  return self.add_frame_task(self.robot.get_frame_index(frame), T);
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_relative_frame_task(unsigned long,unsigned long,Affine3d)")
RelativeFrameTask add_relative_frame(KS& self, FI a, FI b, Affine3d T)
{
  RelativePositionTask& p = own_task(self, new RelativePositionTask(a, b, T.translation()));
  RelativeOrientationTask& o = own_task(self, new RelativeOrientationTask(a, b, T.rotation()));
  return RelativeFrameTask(p, o);
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_relative_frame_task(string,string,Affine3d)")
RelativeFrameTask add_relative_frame_n(KS& self, std::string a, std::string b, Affine3d T)
{
  return self.add_relative_frame_task(self.robot.get_frame_index(a), self.robot.get_frame_index(b), T);
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_axisalign_task(unsigned long,Matrix<3,1>,Matrix<3,1>)")
AxisAlignTask& add_axisalign(KS& self, FI frame, Vector3d axis, Vector3d target)
{
  return own_task(self, new AxisAlignTask(frame, axis, target));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_axisalign_task(string,Matrix<3,1>,Matrix<3,1>)")
AxisAlignTask& add_axisalign_n(KS& self, std::string frame, Vector3d axis, Vector3d target)
{
  return own_task(self, new AxisAlignTask(self.robot.get_frame_index(frame), axis, target));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_joints_task()")
JointsTask& add_joints(KS& self)
{
  return own_task(self, new JointsTask());
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_joints_task(std::map<string,double>&)")
JointsTask& add_joints_m(KS& self, std::map<std::string, double>& joints)
{
  JointsTask& task = own_task(self, new JointsTask());
  for (auto& j : joints)
  {
    task.joints[j.first] = j.second;
  }
  return task;
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_distance_task(unsigned long,unsigned long,double)")
DistanceTask& add_distance(KS& self, FI a, FI b, double distance)
{
  return own_task(self, new DistanceTask(a, b, distance));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_distance_task(string,string,double)")
DistanceTask& add_distance_n(KS& self, std::string a, std::string b, double distance)
{
  return own_task(self, new DistanceTask(self.robot.get_frame_index(a), self.robot.get_frame_index(b), distance));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_centroidal_momentum_task(Matrix<3,1>)")
CentroidalMomentumTask& add_momentum(KS& self, Vector3d L)
{
  return own_task(self, new CentroidalMomentumTask(L));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_gear_task()")
GearTask& add_gears(KS& self)
{
  return own_task(self, new GearTask());
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_wheel_task(string,double,bool)")
WheelTask& add_wheel(KS& self, std::string joint, double radius, bool omniwheel)
{
  return own_task(self, new WheelTask(joint, radius, omniwheel));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_regularization_task(double)")
RegularizationTask& add_regularization(KS& self, double magnitude)
{
  RegularizationTask& task = own_task(self, new RegularizationTask());
  task.default_weight = magnitude;
  task.dirty = true;
  task.configure("regularization", Task::Priority::Soft, 1.0);
  return task;
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_manipulability_task(unsigned long,placo::kinematics::ManipulabilityTask::Type,double)")
ManipulabilityTask& add_manipulability(KS& self, FI frame, ManipulabilityTask::Type type, double lambda)
{
  return own_task(self, new ManipulabilityTask(frame, type, lambda));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_manipulability_task(string,string,double)")
ManipulabilityTask& add_manipulability_n(KS& self, std::string frame, std::string type, double lambda)
{
  if (type != "position" && type != "orientation" && type != "both")
  {
    throw std::runtime_error("type");
  }
  ManipulabilityTask::Type t = type == "position" ? ManipulabilityTask::POSITION :
                               type == "both"     ? ManipulabilityTask::BOTH :
                                                    ManipulabilityTask::ORIENTATION;
  return own_task(self, new ManipulabilityTask(self.robot.get_frame_index(frame), t, lambda));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_kinetic_energy_regularization_task(double)")
KineticEnergyRegularizationTask& add_kinetic(KS& self, double magnitude)
{
  KineticEnergyRegularizationTask& task = own_task(self, new KineticEnergyRegularizationTask());
  task.configure("kinetic_energy_regularization", Task::Priority::Soft, magnitude);
  return task;
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_avoid_self_collisions_constraint()")
AvoidSelfCollisionsConstraint& add_self_collisions(KS& self)
{
  return own_constraint(self, new AvoidSelfCollisionsConstraint());
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_com_polygon_constraint(std::vector<Matrix<2,1>>,double)")
CoMPolygonConstraint& add_com_polygon(KS& self, std::vector<Vector2d> polygon, double margin)
{
  return own_constraint(self, new CoMPolygonConstraint(polygon, margin));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_joint_space_half_spaces_constraint(Matrix<-1,-1>,Matrix<-1,1>)")
JointSpaceHalfSpacesConstraint& add_half_spaces(KS& self, MatrixXd A, VectorXd b)
{
  return own_constraint(self, new JointSpaceHalfSpacesConstraint(A, b));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_cone_constraint(unsigned long,unsigned long,double)")
ConeConstraint& add_cone(KS& self, FI a, FI b, double angle_max)
{
  return own_constraint(self, new ConeConstraint(a, b, angle_max));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_cone_constraint(string,string,double)")
ConeConstraint& add_cone_n(KS& self, std::string a, std::string b, double angle_max)
{
  return own_constraint(self, new ConeConstraint(self.robot.get_frame_index(a), self.robot.get_frame_index(b), angle_max));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_yaw_constraint(unsigned long,unsigned long,double)")
YawConstraint& add_yaw(KS& self, FI a, FI b, double angle_max)
{
  return own_constraint(self, new YawConstraint(a, b, angle_max));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_yaw_constraint(string,string,double)")
YawConstraint& add_yaw_n(KS& self, std::string a, std::string b, double angle_max)
{
  return own_constraint(self, new YawConstraint(self.robot.get_frame_index(a), self.robot.get_frame_index(b), angle_max));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_distance_constraint(unsigned long,unsigned long,double)")
DistanceConstraint& add_distance_c(KS& self, FI a, FI b, double distance_max)
{
  return own_constraint(self, new DistanceConstraint(a, b, distance_max));
}

SPECS("P=K06;F=placo::kinematics::KinematicsSolver::add_distance_constraint(string,string,double)")
DistanceConstraint& add_distance_cn(KS& self, std::string a, std::string b, double distance_max)
{
  return own_constraint(self, new DistanceConstraint(self.robot.get_frame_index(a), self.robot.get_frame_index(b), distance_max));
}
}  // namespace spec
