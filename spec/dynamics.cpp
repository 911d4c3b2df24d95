// UNITS: problem_expr problem tools dyn_solver dyn_tasks
#include "spec.h"
#include <stdexcept>
#include <algorithm>
#include "placo/dynamics/dynamics_solver.h"
#include <pinocchio/spatial/explog.hpp>

using namespace placo::dynamics;
using placo::model::RobotWrapper;
using placo::problem::Expression;
using placo::problem::Problem;
using placo::problem::ProblemConstraint;
using placo::tools::AxisesMask;
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace spec
{
typedef pinocchio::FrameIndex FI;
typedef DynamicsSolver DS;

// the rows of M a mask selects, in its reference frame
static MatrixXd masked(const AxisesMask& mask, const MatrixXd& M)
{
  MatrixXd R = M;
  if (mask.frame == AxisesMask::CustomFrame)
  {
    R = mask.R_custom_world * M;
  }
  if (mask.frame == AxisesMask::LocalFrame)
  {
    R = mask.R_local_world * M;
  }
  return R(mask.indices, Eigen::all);
}

static MatrixXd linear(const MatrixXd& J)
{
  return J.topRows(3);
}

static MatrixXd angular(const MatrixXd& J)
{
  return J.bottomRows(3);
}

// derivative gain: the given one, critical damping when negative
static double damping(Task& self)
{
  return self.kd < 0 ? 2 * std::sqrt(self.kp) : self.kd;
}

// a new task: soft, weight 1, not attached to a solver, critically damped
static void new_task(Task& self)
{
  self.solver = nullptr;
  self.solver_memory = false;
  self.priority = placo::tools::Prioritized::Soft;
  self.weight = 1.;
  self.kp = 1e3;
  self.kd = -1;
  self.tau_task = false;
}

// J qdd + drift follows the target acceleration plus proportional and derivative correction
template <typename T>
static void tracks(T& self, const MatrixXd& J, const Vector3d& drift, const Vector3d& error, const Vector3d& derror,
                   const Vector3d& acceleration)
{
  self.A = masked(self.mask, J);
  self.b = masked(self.mask, self.kp * error + damping(self) * derror + acceleration - drift);
  self.error = masked(self.mask, error);
  self.derror = masked(self.mask, derror);
}

// ------------------------------------------------------------------ D01 tasks
SPECS("P=D01;F=placo::dynamics::Task::get_kd()")
double get_kd(Task& self)
{
  return damping(self);
}

SPECS("P=D01;F=placo::dynamics::PositionTask::update()")
void position(PositionTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Affine3d T = robot.get_T_world_frame(self.frame_index);
  MatrixXd J = linear(robot.frame_jacobian(self.frame_index, pinocchio::LOCAL_WORLD_ALIGNED));
  MatrixXd dJ = linear(robot.frame_jacobian_time_variation(self.frame_index, pinocchio::LOCAL_WORLD_ALIGNED));
  self.mask.R_local_world = T.linear().transpose();
  tracks(self, J, dJ * robot.state.qd, self.target_world - T.translation(), self.dtarget_world - J * robot.state.qd,
         self.ddtarget_world);
}

SPECS("P=D01;F=placo::dynamics::OrientationTask::update()")
void orientation(OrientationTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Matrix3d R = robot.get_T_world_frame(self.frame_index).linear();
  MatrixXd J = angular(robot.frame_jacobian(self.frame_index, pinocchio::WORLD));
  MatrixXd dJ = angular(robot.frame_jacobian_time_variation(self.frame_index, pinocchio::WORLD));
  Matrix3d D = self.R_world_frame * R.transpose();
  self.mask.R_local_world = self.R_world_frame.transpose();
  tracks(self, J, dJ * robot.state.qd, pinocchio::log3(D), self.omega_world - J * robot.state.qd, self.domega_world);
}

SPECS("P=D01;F=placo::dynamics::CoMTask::update()")
void com(CoMTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  MatrixXd J = robot.com_jacobian();
  MatrixXd dJ = robot.com_jacobian_time_variation();
  tracks(self, J, dJ * robot.state.qd, self.target_world - robot.com_world(), self.dtarget_world - J * robot.state.qd,
         self.ddtarget_world);
}

SPECS("P=D01;F=placo::dynamics::RelativePositionTask::update()")
void relative_position(RelativePositionTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Affine3d T_a = robot.get_T_world_frame(self.frame_a_index);
  Affine3d T_b = robot.get_T_world_frame(self.frame_b_index);
  Matrix3d R = T_a.linear().transpose();
  MatrixXd Ja = robot.frame_jacobian(self.frame_a_index, pinocchio::LOCAL_WORLD_ALIGNED);
  MatrixXd Jb = robot.frame_jacobian(self.frame_b_index, pinocchio::LOCAL_WORLD_ALIGNED);
  MatrixXd dJa = robot.frame_jacobian_time_variation(self.frame_a_index, pinocchio::LOCAL_WORLD_ALIGNED);
  MatrixXd dJb = robot.frame_jacobian_time_variation(self.frame_b_index, pinocchio::LOCAL_WORLD_ALIGNED);
  VectorXd qd = robot.state.qd;
  // p = R (b - a), seen from a that rotates at omega (both in a)
  Vector3d p = R * (T_b.translation() - T_a.translation());
  Vector3d omega = R * (angular(Ja) * qd);
  Vector3d v = R * ((linear(Jb) - linear(Ja)) * qd);
  Vector3d dp = v - omega.cross(p);
  MatrixXd J = R * (linear(Jb) - linear(Ja)) + pinocchio::skew(p) * R * angular(Ja);
  Vector3d drift = R * ((linear(dJb) - linear(dJa)) * qd) + pinocchio::skew(p) * R * (angular(dJa) * qd) -
                   2 * omega.cross(v) + omega.cross(omega.cross(p));
  tracks(self, J, drift, self.target - p, self.dtarget - dp, self.ddtarget);
}

SPECS("P=D01;F=placo::dynamics::RelativeOrientationTask::update()")
void relative_orientation(RelativeOrientationTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  Matrix3d R_a = robot.get_T_world_frame(self.frame_a_index).linear();
  Matrix3d R_b = robot.get_T_world_frame(self.frame_b_index).linear();
  MatrixXd J = angular(robot.frame_jacobian(self.frame_b_index, pinocchio::WORLD)) -
               angular(robot.frame_jacobian(self.frame_a_index, pinocchio::WORLD));
  MatrixXd dJ = angular(robot.frame_jacobian_time_variation(self.frame_b_index, pinocchio::WORLD)) -
                angular(robot.frame_jacobian_time_variation(self.frame_a_index, pinocchio::WORLD));
  VectorXd qd = robot.state.qd;
  Matrix3d D = self.R_a_b * (R_a.transpose() * R_b).transpose();
  Matrix3d Jlog;
  pinocchio::Jlog3(D, Jlog);
  tracks(self, Jlog * J, Jlog * (dJ * qd), R_a * pinocchio::log3(D), R_a * self.omega_a_b - J * qd,
         R_a * self.domega_a_b);
}

SPECS("P=D01;F=placo::dynamics::JointsTask::update()")
void joints(JointsTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  int n = self.joints.size();
  self.A = MatrixXd::Zero(n, self.solver->N);
  self.b = MatrixXd(n, 1);
  self.error = MatrixXd(n, 1);
  self.derror = MatrixXd(n, 1);
  int k = 0;
  for (auto& entry : self.joints)
  {
    int i = robot.get_joint_v_offset(entry.first);
    double error = entry.second - robot.get_joint(entry.first);
    double v = 0, a = 0;
    if (self.djoints.count(entry.first))
    {
      v = self.djoints[entry.first];
    }
    if (self.ddjoints.count(entry.first))
    {
      a = self.ddjoints[entry.first];
    }
    double derror = v - robot.state.qd[i];
    self.A(k, i) = 1;
    self.b(k, 0) = self.kp * error + damping(self) * derror + a;
    self.error(k, 0) = error;
    self.derror(k, 0) = derror;
    k++;
  }
}

SPECS("P=D01;F=placo::dynamics::JointsTask::set_joint(string,double,double,double)")
void set_joint(JointsTask& self, std::string joint, double target, double velocity, double acceleration)
{
  self.joints[joint] = target;
  self.djoints[joint] = velocity;
  self.ddjoints[joint] = acceleration;
}

SPECS("P=D01;F=placo::dynamics::JointsTask::get_joint(string)")
double get_joint(JointsTask& self, std::string joint)
{
  if (self.joints.count(joint) == 0)
  {
    throw std::runtime_error("unknown joint");
  }
  return self.joints.at(joint);
}

SPECS("P=D01;F=placo::dynamics::TorqueTask::update()")
void torque(TorqueTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  int n = self.torques.size();
  self.A = MatrixXd::Zero(n, self.solver->N);
  self.b = MatrixXd::Zero(n, 1);
  self.error = MatrixXd::Zero(n, 1);
  self.derror = MatrixXd::Zero(n, 1);
  int k = 0;
  for (auto& entry : self.torques)
  {
    int i = robot.get_joint_v_offset(entry.first);
    self.A(k, i) = 1;
    self.b(k, 0) = entry.second.torque + entry.second.kp * robot.get_joint(entry.first) -
                   entry.second.kd * robot.get_joint_velocity(entry.first);
    k++;
  }
}

SPECS("P=D01;F=placo::dynamics::TorqueTask::set_torque(string,double,double,double)")
void set_torque(TorqueTask& self, std::string joint, double torque, double kp, double kd)
{
  self.torques[joint].torque = torque;
  self.torques[joint].kp = kp;
  self.torques[joint].kd = kd;
}

SPECS("P=D01;F=placo::dynamics::TorqueTask::reset_torque(string)")
void reset_torque(TorqueTask& self, std::string joint)
{
  self.torques.erase(joint);
}

SPECS("P=D01;F=placo::dynamics::GearTask::add_gear(string,string,double)")
void add_gear(GearTask& self, std::string target, std::string source, double ratio)
{
  int t = self.solver->robot.get_joint_v_offset(target);
  int s = self.solver->robot.get_joint_v_offset(source);
  self.gears[t][s] = ratio;
}

SPECS("P=D01;F=placo::dynamics::GearTask::set_gear(string,string,double)")
void set_gear(GearTask& self, std::string target, std::string source, double ratio)
{
  int t = self.solver->robot.get_joint_v_offset(target);
  self.gears[t].clear();
  int s = self.solver->robot.get_joint_v_offset(source);
  self.gears[t][s] = ratio;
}

SPECS("P=D01;F=placo::dynamics::GearTask::update()")
void gear(GearTask& self)
{
  RobotWrapper& robot = self.solver->robot;
  int n = self.gears.size();
  self.A = MatrixXd::Zero(n, self.solver->N);
  self.b = MatrixXd::Zero(n, 1);
  self.error = MatrixXd(n, 1);
  self.derror = MatrixXd(n, 1);
  int k = 0;
  for (auto& entry : self.gears)
  {
    // sum of ratio * source - target and its velocity go to zero
    double error = robot.state.q[entry.first + 1];
    double derror = robot.state.qd[entry.first];
    double q = 0, qd = 0;
    self.A(k, entry.first) = -1;
    for (auto& source : entry.second)
    {
      q += source.second * robot.state.q[source.first + 1];
      qd += source.second * robot.state.qd[source.first];
      self.A(k, source.first) = source.second;
    }
    self.b(k, 0) = self.kp * (error - q) + damping(self) * (derror - qd);
    self.error(k, 0) = error - q;
    self.derror(k, 0) = derror - qd;
    k++;
  }
}

SPECS("P=D01;F=placo::dynamics::PositionTask::PositionTask(unsigned long,Matrix<3,1>)")
void positiontask_ctor(PositionTask& self, FI frame, Vector3d target)
{
  new_task(self);
  self.frame_index = frame;
  self.target_world = target;
  self.dtarget_world = Vector3d::Zero();
  self.ddtarget_world = Vector3d::Zero();
}

SPECS("P=D01;F=placo::dynamics::OrientationTask::OrientationTask(unsigned long,Matrix<3,3>)")
void orientationtask_ctor(OrientationTask& self, FI frame, Matrix3d R)
{
  new_task(self);
  self.frame_index = frame;
  self.R_world_frame = R;
  self.omega_world = Vector3d::Zero();
  self.domega_world = Vector3d::Zero();
}

SPECS("P=D01;F=placo::dynamics::CoMTask::CoMTask(Matrix<3,1>)")
void comtask_ctor(CoMTask& self, Vector3d target)
{
  new_task(self);
  self.target_world = target;
  self.dtarget_world = Vector3d::Zero();
  self.ddtarget_world = Vector3d::Zero();
}

SPECS("P=D01;F=placo::dynamics::RelativePositionTask::RelativePositionTask(unsigned long,unsigned long,Matrix<3,1>)")
void relativepositiontask_ctor(RelativePositionTask& self, FI a, FI b, Vector3d target)
{
  new_task(self);
  self.frame_a_index = a;
  self.frame_b_index = b;
  self.target = target;
  self.dtarget = Vector3d::Zero();
  self.ddtarget = Vector3d::Zero();
}

SPECS("P=D01;F=placo::dynamics::RelativeOrientationTask::RelativeOrientationTask(unsigned long,unsigned long,Matrix<3,3>)")
void relativeorientationtask_ctor(RelativeOrientationTask& self, FI a, FI b, Matrix3d R)
{
  new_task(self);
  self.frame_a_index = a;
  self.frame_b_index = b;
  self.R_a_b = R;
  self.omega_a_b = Vector3d::Zero();
  self.domega_a_b = Vector3d::Zero();
}

SPECS("P=D01;F=placo::dynamics::TorqueTask::TorqueTask()")
void torquetask_ctor(TorqueTask& self)
{
  new_task(self);
  self.tau_task = true;
}

SPECS("P=D01;F=placo::dynamics::FrameTask::FrameTask(placo::dynamics::PositionTask*,placo::dynamics::OrientationTask*)")
void frame_ctor(FrameTask& self, PositionTask* p, OrientationTask* o)
{
  self.position = p;
  self.orientation = o;
}

SPECS("P=D01;F=placo::dynamics::FrameTask::configure(string,string,double,double)")
void frame_configure(FrameTask& self, std::string name, std::string priority, double position_weight,
                     double orientation_weight)
{
  PositionTask* p = self.position;
  OrientationTask* o = self.orientation;
  p->configure(name + "_position", priority, position_weight);
  o->configure(name + "_orientation", priority, orientation_weight);
}

SPECS("P=D01;F=placo::dynamics::FrameTask::get_T_world_frame() const")
Affine3d frame_get(const FrameTask& self)
{
  Affine3d T;
  T.linear() = self.orientation->R_world_frame;
  T.translation() = self.position->target_world;
  return T;
}

SPECS("P=D01;F=placo::dynamics::FrameTask::set_T_world_frame(Affine3d)")
void frame_set(FrameTask& self, Affine3d T)
{
  self.orientation->R_world_frame = T.linear();
  self.position->target_world = T.translation();
}

SPECS("P=D01;F=placo::dynamics::RelativeFrameTask::RelativeFrameTask(placo::dynamics::RelativePositionTask*,placo::dynamics::RelativeOrientationTask*)")
void rel_frame_ctor(RelativeFrameTask& self, RelativePositionTask* p, RelativeOrientationTask* o)
{
  self.position = p;
  self.orientation = o;
}

SPECS("P=D01;F=placo::dynamics::RelativeFrameTask::configure(string,string,double,double)")
void rel_frame_configure(RelativeFrameTask& self, std::string name, std::string priority, double position_weight,
                     double orientation_weight)
{
  RelativePositionTask* p = self.position;
  RelativeOrientationTask* o = self.orientation;
  p->configure(name + "_position", priority, position_weight);
  o->configure(name + "_orientation", priority, orientation_weight);
}

SPECS("P=D01;F=placo::dynamics::RelativeFrameTask::get_T_a_b() const")
Affine3d rel_frame_get(const RelativeFrameTask& self)
{
  Affine3d T;
  T.linear() = self.orientation->R_a_b;
  T.translation() = self.position->target;
  return T;
}

SPECS("P=D01;F=placo::dynamics::RelativeFrameTask::set_T_a_b(Affine3d)")
void rel_frame_set(RelativeFrameTask& self, Affine3d T)
{
  self.orientation->R_a_b = T.linear();
  self.position->target = T.translation();
}

// ------------------------------------------------------------------ D02 contacts
static void new_contact(Contact& self)
{
  self.active = true;
  self.solver_memory = false;
  self.mu = 1.;
  self.weight_forces = 0.;
  self.weight_tangentials = 0.;
  self.weight_moments = 0.;
  self.solver = nullptr;
}

static void cost(Problem& problem, const Expression& e, double weight)
{
  if (weight > 0)
  {
    problem.add_constraint(e == 0).configure(ProblemConstraint::Soft, weight);
  }
}

// |e| <= bound, two inequalities
static void within(Problem& problem, const Expression& e, const Expression& bound)
{
  problem.add_constraint(e <= bound);
  Expression minus = -bound;
  problem.add_constraint(minus <= e);
}

SPECS("P=D02;F=placo::dynamics::Contact::Contact()")
void contact_ctor(Contact& self)
{
  new_contact(self);
}

SPECS("P=D02;F=placo::dynamics::PointContact::PointContact(placo::dynamics::PositionTask&,bool)")
void point_ctor(PointContact& self, PositionTask& task, bool unilateral)
{
  new_contact(self);
  self.position_task = &task;
  self.unilateral = unilateral;
  self.R_world_surface = Matrix3d::Identity();
}

SPECS("P=D02;F=placo::dynamics::Contact6D::Contact6D(placo::dynamics::FrameTask&,bool)")
void contact6d_ctor(Contact6D& self, FrameTask& task, bool unilateral)
{
  new_contact(self);
  self.position_task = task.position;
  self.orientation_task = task.orientation;
  self.unilateral = unilateral;
  self.length = 0.;
  self.width = 0.;
}

SPECS("P=D02;F=placo::dynamics::LineContact::LineContact(placo::dynamics::FrameTask&,bool)")
void line_ctor(LineContact& self, FrameTask& task, bool unilateral)
{
  new_contact(self);
  self.position_task = task.position;
  self.orientation_task = task.orientation;
  self.unilateral = unilateral;
  self.length = 0.;
  self.R_world_surface = Matrix3d::Identity();
}

SPECS("P=D02;F=placo::dynamics::ExternalWrenchContact::ExternalWrenchContact(unsigned long,pinocchio::ReferenceFrame)")
void external_ctor(ExternalWrenchContact& self, FI frame, pinocchio::ReferenceFrame reference)
{
  new_contact(self);
  self.frame_index = frame;
  self.reference = reference;
  self.w_ext = VectorXd::Zero(6);
}

SPECS("P=D02;F=placo::dynamics::TaskContact::TaskContact(placo::dynamics::Task&)")
void task_contact_ctor(TaskContact& self, Task& task)
{
  new_contact(self);
  self.task = &task;
}

SPECS("P=D02;F=placo::dynamics::Contact::size()")
int contact_size(Contact& self)
{
  return self.J.rows();
}

SPECS("P=D02;F=placo::dynamics::Contact::add_constraints(placo::problem::Problem&)")
void contact_constraints(Contact& self, Problem& problem)
{
  cost(problem, self.f, self.weight_forces);
}

SPECS("P=D02;F=placo::dynamics::PointContact::update()")
void point_update(PointContact& self)
{
  self.J = self.position_task->A;
  if (self.J.rows() != 3)
  {
    throw std::logic_error("dimension");
  }
}

SPECS("P=D02;F=placo::dynamics::PointContact::add_constraints(placo::problem::Problem&)")
void point_constraints(PointContact& self, Problem& problem)
{
  Matrix3d R = self.R_world_surface.transpose();
  Expression f = R * self.f;
  if (self.unilateral)
  {
    Expression fz = f.slice(2, 1);
    problem.add_constraint(fz >= 0);
    Expression cone = self.mu * fz;
    within(problem, f.slice(0, 1), cone);
    within(problem, f.slice(1, 1), cone);
  }
  cost(problem, self.f.slice(0, 3), self.weight_forces);
  cost(problem, f.slice(0, 2), self.weight_tangentials);
}

SPECS("P=D02;F=placo::dynamics::Contact6D::update()")
void contact6d_update(Contact6D& self)
{
  RobotWrapper& robot = self.solver->robot;
  self.J = MatrixXd::Zero(6, self.solver->N);
  self.J.topRows(3) = linear(robot.frame_jacobian(self.position_task->frame_index, pinocchio::LOCAL));
  self.J.bottomRows(3) = angular(robot.frame_jacobian(self.orientation_task->frame_index, pinocchio::LOCAL));
}

SPECS("P=D02;F=placo::dynamics::Contact6D::add_constraints(placo::problem::Problem&)")
void contact6d_constraints(Contact6D& self, Problem& problem)
{
  const Expression& f = self.f;
  if (self.unilateral)
  {
    if (self.length == 0 || self.width == 0)
    {
      throw std::logic_error("size");
    }
    Expression fz = f.slice(2, 1);
    problem.add_constraint(fz >= 0);
    // centre of pressure inside the sole
    Expression l = (self.length / 2) * fz;
    Expression w = (self.width / 2) * fz;
    within(problem, f.slice(4, 1), l);
    within(problem, f.slice(3, 1), w);
    // no slip
    Expression cone = self.mu * fz;
    within(problem, f.slice(0, 1), cone);
    within(problem, f.slice(1, 1), cone);
  }
  cost(problem, f.slice(0, 3), self.weight_forces);
  cost(problem, f.slice(0, 2), self.weight_tangentials);
  cost(problem, f.slice(3, 3), self.weight_moments);
}

SPECS("P=D02;F=placo::dynamics::Contact6D::zmp()")
Vector3d contact6d_zmp(Contact6D& self)
{
  double fz = self.wrench[2];
  return Vector3d(-self.wrench[4] / fz, self.wrench[3] / fz, 0);
}

SPECS("P=D02;F=placo::dynamics::LineContact::update()")
void line_update(LineContact& self)
{
  RobotWrapper& robot = self.solver->robot;
  if (self.orientation_task->A.rows() != 2)
  {
    throw std::logic_error("dimension");
  }
  self.J = MatrixXd::Zero(5, self.solver->N);
  self.J.topRows(3) = linear(robot.frame_jacobian(self.position_task->frame_index, pinocchio::LOCAL_WORLD_ALIGNED));
  self.J.bottomRows(2) = self.orientation_task->A;
}

SPECS("P=D02;F=placo::dynamics::LineContact::add_constraints(placo::problem::Problem&)")
void line_constraints(LineContact& self, Problem& problem)
{
  Matrix3d R = self.R_world_surface.transpose();
  Expression f = R * self.f.slice(0, 3);
  if (self.unilateral)
  {
    if (self.length == 0)
    {
      throw std::logic_error("size");
    }
    Expression fz = f.slice(2, 1);
    problem.add_constraint(fz >= 0);
    Expression l = (self.length / 2) * fz;
    within(problem, self.f.slice(3, 1), l);
    Expression cone = self.mu * fz;
    within(problem, f.slice(0, 1), cone);
    within(problem, f.slice(1, 1), cone);
  }
  cost(problem, f.slice(0, 3), self.weight_forces);
  cost(problem, f.slice(0, 2), self.weight_tangentials);
  cost(problem, self.f.slice(3, 2), self.weight_moments);
}

SPECS("P=D02;F=placo::dynamics::LineContact::zmp()")
Vector3d line_zmp(LineContact& self)
{
  Vector3d f = self.R_world_surface.transpose() * self.wrench.head(3);
  return Vector3d(-self.wrench[3] / f.z(), 0, 0);
}

SPECS("P=D02;F=placo::dynamics::ExternalWrenchContact::update()")
void external_update(ExternalWrenchContact& self)
{
  self.J = self.solver->robot.frame_jacobian(self.frame_index, self.reference);
}

SPECS("P=D02;F=placo::dynamics::ExternalWrenchContact::add_constraints(placo::problem::Problem&)")
void external_constraints(ExternalWrenchContact& self, Problem& problem)
{
  problem.add_constraint(self.f == self.w_ext);
}

SPECS("P=D02;F=placo::dynamics::PuppetContact::update()")
void puppet_update(PuppetContact& self)
{
  self.J = MatrixXd::Identity(self.solver->N, self.solver->N);
}

SPECS("P=D02;F=placo::dynamics::TaskContact::update()")
void task_contact_update(TaskContact& self)
{
  self.J = self.task->A;
}

// ------------------------------------------------------------------ D03 assembling and solving
SPECS("P=D03;F=placo::dynamics::DynamicsSolver::solve(bool)")
DS::Result solve(DS& self, bool integrate)
{
  DS::Result result;
  RobotWrapper& robot = self.robot;
  Problem& problem = self.problem;
  problem.clear_constraints();
  problem.clear_variables();
  placo::problem::Variable& x = problem.add_variable(robot.model.nv);
  Expression qdd = x.expr();
  if (self.masked_fbase)
  {
    problem.add_constraint(x.expr(0, 6) == 0.);
  }
  for (auto& task : self.tasks)
  {
    task->update();
  }
  // tau = M qdd + b + damping qd + extra - sum of J^T f
  Expression tau = robot.mass_matrix() * qdd + robot.state.qd * self.damping;
  if (self.gravity_only)
  {
    tau = tau + robot.generalized_gravity();
  }
  else
  {
    tau = tau + robot.non_linear_effects();
  }
  if (self.extra_force.size() > 0)
  {
    tau = tau + self.extra_force;
  }
  for (auto& contact : self.contacts)
  {
    if (contact->active)
    {
      contact->update();
      contact->f = problem.add_variable(contact->size()).expr();
      contact->add_constraints(problem);
    }
  }
  int cols = tau.A.cols();
  tau.A.conservativeResize(self.N, problem.n_variables);
  tau.A.block(0, cols, self.N, problem.n_variables - cols).setZero();
  int k = self.N;
  for (auto& contact : self.contacts)
  {
    if (contact->active)
    {
      tau.A.block(0, k, self.N, contact->J.rows()) = -contact->J.transpose();
      tau.b -= contact->J.transpose() * contact->f.b;
      k += contact->J.rows();
    }
  }
  self.compute_limits_inequalities(tau);
  for (auto& task : self.tasks)
  {
    if (task->A.rows() > 0)
    {
      if (task->priority == Task::Priority::Scaled)
      {
        throw std::runtime_error("scaled");
      }
      Expression e;
      if (task->tau_task)
      {
        e.A = task->A * tau.A;
        e.b = task->A * tau.b - task->b;
      }
      else
      {
        e.A = task->A;
        e.b = -task->b;
      }
      problem.add_constraint(e == 0).configure(
          task->priority == Task::Priority::Soft ? ProblemConstraint::Soft : ProblemConstraint::Hard, task->weight);
    }
  }
  for (auto constraint : self.constraints)
  {
    constraint->add_constraint(problem, tau);
  }
  if (!self.masked_fbase)
  {
    problem.add_constraint(tau.slice(0, 6) == 0);
  }
  problem.add_constraint(tau.slice(6) == 0).configure(ProblemConstraint::Soft, self.torque_cost);
  try
  {
    problem.solve();
    result.success = true;
    result.tau = tau.value(problem.x);
    result.qdd = qdd.value(problem.x);
    result.tau_contacts = VectorXd::Zero(self.N);
    for (auto& contact : self.contacts)
    {
      if (contact->active)
      {
        contact->wrench = contact->f.value(problem.x);
        result.tau_contacts += contact->J.transpose() * contact->wrench;
      }
    }
    if (integrate)
    {
      if (self.dt == 0.)
      {
        throw std::runtime_error("dt");
      }
      robot.state.qdd = result.qdd;
      if (self.masked_fbase)
      {
        robot.state.qdd.head(6).setZero();
      }
      robot.integrate(self.dt);
    }
  }
  catch (placo::problem::QPError& e)
  {
    result.success = false;
  }
  return result;
}

// ------------------------------------------------------------------ D04 limits

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::enable_joint_limits(bool)")
void enable_joint_limits(DS& self, bool enable)
{
  self.joint_limits = enable;
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::enable_velocity_limits(bool)")
void enable_velocity_limits(DS& self, bool enable)
{
  self.velocity_limits = enable;
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::enable_velocity_vs_torque_limits(bool)")
void enable_velocity_vs_torque_limits(DS& self, bool enable)
{
  self.velocity_vs_torque_limits = enable;
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::enable_torque_limits(bool)")
void enable_torque_limits(DS& self, bool enable)
{
  self.torque_limits = enable;
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::mask_fbase(bool)")
void mask_fbase(DS& self, bool enable)
{
  self.masked_fbase = enable;
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::set_qdd_safe(string,double)")
void set_qdd_safe(DS& self, std::string joint, double qdd)
{
  self.qdd_safe[self.robot.get_joint_v_offset(joint)] = qdd;
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::set_torque_limit(string,double)")
void set_torque_limit(DS& self, std::string joint, double limit)
{
  self.overriden_torque_limits[self.robot.get_joint_v_offset(joint)] = limit;
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::set_kp(double)")
void set_kp(DS& self, double kp)
{
  for (auto task : self.tasks)
  {
    task->kp = kp;
  }
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::set_kd(double)")
void set_kd(DS& self, double kd)
{
  for (auto task : self.tasks)
  {
    task->kd = kd;
  }
}

SPECS("P=D04;F=placo::dynamics::DynamicsSolver::compute_limits_inequalities(placo::problem::Expression&)")
void limits(DS& self, Expression& tau)
{
  spec::require(tau.A.rows() == self.N && tau.b.rows() == self.N && tau.A.cols() == self.problem.n_variables);
  bool velocity = self.velocity_limits || self.velocity_vs_torque_limits;
  if ((self.joint_limits || velocity) && self.dt == 0.)
  {
    throw std::runtime_error("dt");
  }
  RobotWrapper& robot = self.robot;
  Problem& problem = self.problem;
  int n = self.N - 6;
  if (self.torque_limits)
  {
    // -limit <= tau <= limit, overridden ones included
    VectorXd limit = robot.model.effortLimit;
    for (auto& entry : self.overriden_torque_limits)
    {
      limit[entry.first] = entry.second;
    }
    VectorXd bound = limit.tail(n);
    problem.add_constraint(tau.slice(6) <= bound);
    VectorXd low = -bound;
    problem.add_constraint(tau.slice(6) >= low);
  }
  int rows = (self.joint_limits ? 2 * n : 0) + (velocity ? 2 * n : 0);
  if (rows > 0)
  {
    int nx = problem.n_variables;
    Expression e;
    e.A = MatrixXd::Zero(rows, nx);
    e.b = VectorXd(rows);
    int r = 0;
    for (int k = 0; k < n; k++)
    {
      int i = k + 6;
      double q = robot.state.q[k + 7];
      double qd = robot.state.qd[i];
      double vmax = robot.model.velocityLimit[i];
      if (self.velocity_vs_torque_limits)
      {
        // |qd + dt qdd + ratio tau| <= vmax
        double ratio = vmax / robot.model.effortLimit[i];
        MatrixXd t = ratio * tau.A.block(i, 0, 1, nx);
        e.A.block(r, 0, 1, nx) = t;
        e.A(r, i) += self.dt;
        e.b[r] = ratio * tau.b[i] + qd - vmax;
        MatrixXd m = -t;
        e.A.block(r + 1, 0, 1, nx) = m;
        e.A(r + 1, i) -= self.dt;
        e.b[r + 1] = -ratio * tau.b[i] - qd - vmax;
        r += 2;
      }
      else if (self.velocity_limits)
      {
        // |qd + dt qdd| <= vmax
        e.A(r, i) = self.dt;
        e.b[r] = qd - vmax;
        e.A(r + 1, i) = -self.dt;
        e.b[r + 1] = -qd - vmax;
        r += 2;
      }
      if (self.joint_limits)
      {
        double safe = self.qdd_safe[i];
        if (q > robot.model.upperPositionLimit[k + 7])
        {
          e.A(r, i) = 1;
          e.b[r] = safe;
        }
        else
        {
          e.A(r, i) = self.dt;
          e.b[r] = qd - std::sqrt(2 * (robot.model.upperPositionLimit[k + 7] - q) * safe);
        }
        if (q < robot.model.lowerPositionLimit[k + 7])
        {
          e.A(r + 1, i) = -1;
          e.b[r + 1] = safe;
        }
        else
        {
          e.A(r + 1, i) = -self.dt;
          e.b[r + 1] = -qd - std::sqrt(2 * std::fabs(robot.model.lowerPositionLimit[k + 7] - q) * safe);
        }
        r += 2;
      }
    }
    problem.add_constraint(e <= 0);
  }
}

SPECS("P=D04;F=placo::dynamics::AvoidSelfCollisionsConstraint::add_constraint(placo::problem::Problem&,placo::problem::Expression&)")
void self_collisions(AvoidSelfCollisionsConstraint& self, Problem& problem, Expression& tau)
{
  DS& solver = *self.solver;
  if (solver.dt == 0.)
  {
    throw std::runtime_error("dt");
  }
  RobotWrapper& robot = solver.robot;
  std::vector<RobotWrapper::Distance> distances = robot.distances();
  int n = 0;
  for (auto& d : distances)
  {
    if (d.min_distance < self.self_collisions_trigger)
    {
      n++;
    }
  }
  if (n > 0)
  {
    Expression e;
    e.A = MatrixXd(n, solver.N);
    e.b = VectorXd(n);
    int r = 0;
    for (auto& d : distances)
    {
      if (d.min_distance < self.self_collisions_trigger)
      {
        // unit vector from A to B, out of the collision
        Vector3d u = (d.pointB - d.pointA).normalized();
        if (d.min_distance < 0)
        {
          u = -u;
        }
        MatrixXd XA = pinocchio::SE3(Matrix3d::Identity(), -d.pointA).toActionMatrix();
        MatrixXd XB = pinocchio::SE3(Matrix3d::Identity(), -d.pointB).toActionMatrix();
        MatrixXd J = XB * robot.joint_jacobian(d.parentB, pinocchio::WORLD) - XA * robot.joint_jacobian(d.parentA, pinocchio::WORLD);
        MatrixXd dJ = XB * robot.joint_jacobian_time_variation(d.parentB, pinocchio::WORLD) -
                      XA * robot.joint_jacobian_time_variation(d.parentA, pinocchio::WORLD);
        MatrixXd j = u.transpose() * linear(J);
        double safe = 0;
        for (int k = 6; k < solver.N; k++)
        {
          safe += std::fabs(j(0, k)) * solver.qdd_safe[k];
        }
        safe = safe / 2;
        if (d.min_distance >= self.self_collisions_margin)
        {
          // velocity towards the collision after dt is such that it can still be stopped
          double v = (j * robot.state.qd)(0, 0);
          double drift = (u.transpose() * linear(dJ) * robot.state.qd)(0, 0);
          e.A.block(r, 0, 1, solver.N) = solver.dt * j;
          e.b[r] = solver.dt * drift + v + std::sqrt(2 * (d.min_distance - self.self_collisions_margin) * safe);
        }
        else
        {
          e.A.block(r, 0, 1, solver.N) = j;
          e.b[r] = -safe;
        }
        r++;
      }
    }
    problem.add_constraint(e >= 0).configure(
        self.priority == placo::tools::Prioritized::Soft ? ProblemConstraint::Soft : ProblemConstraint::Hard, self.weight);
  }
}

// ------------------------------------------------------------------ D05 registration and lifetime
SPECS("P=D05,D04;F=placo::dynamics::DynamicsSolver::DynamicsSolver(placo::model::RobotWrapper&)")
void ctor(DS& self, RobotWrapper& robot)
{
  spec::bind(self.robot, robot);
  self.damping = 0.;
  self.dt = 0.;
  self.N = robot.model.nv;
  self.gravity_only = false;
  self.torque_cost = 1e-3;
  self.extra_force = VectorXd::Zero(0);
  self.masked_fbase = false;
  self.task_id = 0;
  self.constraint_id = 0;
  self.torque_limits = false;
  self.joint_limits = false;
  self.velocity_vs_torque_limits = false;
  self.velocity_limits = false;
  self.problem.use_sparsity = false;
  self.problem.rewrite_equalities = true;
  for (std::string joint : robot.joint_names())
  {
    self.qdd_safe[robot.get_joint_v_offset(joint)] = 1.;
  }
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_task(placo::dynamics::Task&)")
void add_task(DS& self, Task& task)
{
  task.solver = &self;
  self.tasks.insert(&task);
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_constraint(placo::dynamics::Constraint&)")
void add_constraint(DS& self, Constraint& constraint)
{
  constraint.solver = &self;
  self.constraints.insert(&constraint);
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_contact(placo::dynamics::Contact&)")
void add_contact(DS& self, Contact& contact)
{
  contact.solver = &self;
  self.contacts.push_back(&contact);
}

SPECS("P=D05,M02;F=placo::dynamics::DynamicsSolver::remove_task(placo::dynamics::Task&)")
void remove_task(DS& self, Task& task)
{
  bool owned = task.solver_memory;
  self.tasks.erase(&task);
  if (owned)
  {
    delete &task;
  }
}

SPECS("P=D05,M02;F=placo::dynamics::DynamicsSolver::remove_task(placo::dynamics::FrameTask&)")
void remove_frame_task(DS& self, FrameTask& task)
{
  self.remove_task(*task.position);
  self.remove_task(*task.orientation);
}

SPECS("P=D05,M02;F=placo::dynamics::DynamicsSolver::remove_contact(placo::dynamics::Contact&)")
void remove_contact(DS& self, Contact& contact)
{
  bool owned = contact.solver_memory;
  self.contacts.erase(std::remove(self.contacts.begin(), self.contacts.end(), &contact), self.contacts.end());
  if (owned)
  {
    delete &contact;
  }
}

SPECS("P=D05,M02;F=placo::dynamics::DynamicsSolver::remove_constraint(placo::dynamics::Constraint&)")
void remove_constraint(DS& self, Constraint& constraint)
{
  bool owned = constraint.solver_memory;
  self.constraints.erase(&constraint);
  if (owned)
  {
    delete &constraint;
  }
}

SPECS("P=D05,M02;F=placo::dynamics::DynamicsSolver::clear()")
void clear(DS& self)
{
  for (auto task : self.tasks)
  {
    if (task->solver_memory)
    {
      delete task;
    }
  }
  self.tasks.clear();
  for (auto constraint : self.constraints)
  {
    if (constraint->solver_memory)
    {
      delete constraint;
    }
  }
  self.constraints.clear();
  for (auto contact : self.contacts)
  {
    if (contact->solver_memory)
    {
      delete contact;
    }
  }
  self.contacts.clear();
}

SPECS("P=D05,M02;F=placo::dynamics::DynamicsSolver::~DynamicsSolver()")
void destroy(DS& self)
{
  self.clear();
}

template <typename T>
static T& own_task(DS& self, T* task)
{
  self.task_id += 1;
  task->solver = &self;
  task->solver_memory = true;
  std::ostringstream name;
  name << "Task_" << self.task_id;
  task->name = name.str();
  self.tasks.insert(task);
  return *task;
}

template <typename T>
static T& own_constraint(DS& self, T* constraint)
{
  self.constraint_id += 1;
  constraint->solver = &self;
  constraint->solver_memory = true;
  std::ostringstream name;
  name << "Constraint_" << self.constraint_id;
  constraint->name = name.str();
  self.constraints.insert(constraint);
  return *constraint;
}

template <typename T>
static T& own_contact(DS& self, T* contact)
{
  contact->solver = &self;
  contact->solver_memory = true;
  self.contacts.push_back(contact);
  return *contact;
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_position_task(unsigned long,Matrix<3,1>)")
PositionTask& add_position_task_1(DS& self, FI frame, Vector3d target)
{
  return own_task(self, new PositionTask(frame, target));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_position_task(string,Matrix<3,1>)")
PositionTask& add_position_task_2(DS& self, std::string frame, Vector3d target)
{
  return own_task(self, new PositionTask(self.robot.get_frame_index(frame), target));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_orientation_task(unsigned long,Matrix<3,3>)")
OrientationTask& add_orientation_task_3(DS& self, FI frame, Matrix3d R)
{
  return own_task(self, new OrientationTask(frame, R));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_orientation_task(string,Matrix<3,3>)")
OrientationTask& add_orientation_task_4(DS& self, std::string frame, Matrix3d R)
{
  return own_task(self, new OrientationTask(self.robot.get_frame_index(frame), R));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_relative_position_task(unsigned long,unsigned long,Matrix<3,1>)")
RelativePositionTask& add_relative_position_task_5(DS& self, FI a, FI b, Vector3d target)
{
  return own_task(self, new RelativePositionTask(a, b, target));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_relative_position_task(string,string,Matrix<3,1>)")
RelativePositionTask& add_relative_position_task_6(DS& self, std::string a, std::string b, Vector3d target)
{
  return own_task(self, new RelativePositionTask(self.robot.get_frame_index(a), self.robot.get_frame_index(b), target));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_relative_orientation_task(unsigned long,unsigned long,Matrix<3,3>)")
RelativeOrientationTask& add_relative_orientation_task_7(DS& self, FI a, FI b, Matrix3d R)
{
  return own_task(self, new RelativeOrientationTask(a, b, R));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_relative_orientation_task(string,string,Matrix<3,3>)")
RelativeOrientationTask& add_relative_orientation_task_8(DS& self, std::string a, std::string b, Matrix3d R)
{
  return own_task(self, new RelativeOrientationTask(self.robot.get_frame_index(a), self.robot.get_frame_index(b), R));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_frame_task(unsigned long,Affine3d)")
FrameTask add_frame_task_9(DS& self, FI frame, Affine3d T)
{
  PositionTask& p = own_task(self, new PositionTask(frame, T.translation()));
  OrientationTask& o = own_task(self, new OrientationTask(frame, T.linear()));
  return FrameTask(&p, &o);
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_frame_task(string,Affine3d)")
FrameTask add_frame_task_10(DS& self, std::string frame, Affine3d T)
{
  PositionTask& p = own_task(self, new PositionTask(self.robot.get_frame_index(frame), T.translation()));
  OrientationTask& o = own_task(self, new OrientationTask(self.robot.get_frame_index(frame), T.linear()));
  return FrameTask(&p, &o);
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_relative_frame_task(unsigned long,unsigned long,Affine3d)")
RelativeFrameTask add_relative_frame_task_11(DS& self, FI a, FI b, Affine3d T)
{
  RelativePositionTask& p = own_task(self, new RelativePositionTask(a, b, T.translation()));
  RelativeOrientationTask& o = own_task(self, new RelativeOrientationTask(a, b, T.linear()));
  return RelativeFrameTask(&p, &o);
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_relative_frame_task(string,string,Affine3d)")
RelativeFrameTask add_relative_frame_task_12(DS& self, std::string a, std::string b, Affine3d T)
{
  RelativePositionTask& p = own_task(self, new RelativePositionTask(self.robot.get_frame_index(a), self.robot.get_frame_index(b), T.translation()));
  RelativeOrientationTask& o = own_task(self, new RelativeOrientationTask(self.robot.get_frame_index(a), self.robot.get_frame_index(b), T.linear()));
  return RelativeFrameTask(&p, &o);
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_com_task(Matrix<3,1>)")
CoMTask& add_com_task_13(DS& self, Vector3d target)
{
  return own_task(self, new CoMTask(target));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_joints_task()")
JointsTask& add_joints_task_14(DS& self)
{
  return own_task(self, new JointsTask());
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_torque_task()")
TorqueTask& add_torque_task_15(DS& self)
{
  return own_task(self, new TorqueTask());
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_gear_task()")
GearTask& add_gear_task_16(DS& self)
{
  return own_task(self, new GearTask());
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_point_contact(placo::dynamics::PositionTask&)")
PointContact& add_point_contact_17(DS& self, PositionTask& task)
{
  return own_contact(self, new PointContact(task, false));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_unilateral_point_contact(placo::dynamics::PositionTask&)")
PointContact& add_unilateral_point_contact_18(DS& self, PositionTask& task)
{
  return own_contact(self, new PointContact(task, true));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_planar_contact(placo::dynamics::FrameTask&)")
Contact6D& add_planar_contact_19(DS& self, FrameTask& task)
{
  return own_contact(self, new Contact6D(task, true));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_fixed_contact(placo::dynamics::FrameTask&)")
Contact6D& add_fixed_contact_20(DS& self, FrameTask& task)
{
  return own_contact(self, new Contact6D(task, false));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_line_contact(placo::dynamics::FrameTask&)")
LineContact& add_line_contact_21(DS& self, FrameTask& task)
{
  return own_contact(self, new LineContact(task, false));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_unilateral_line_contact(placo::dynamics::FrameTask&)")
LineContact& add_unilateral_line_contact_22(DS& self, FrameTask& task)
{
  return own_contact(self, new LineContact(task, true));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_external_wrench_contact(unsigned long,pinocchio::ReferenceFrame)")
ExternalWrenchContact& add_external_wrench_contact_23(DS& self, FI frame, pinocchio::ReferenceFrame reference)
{
  return own_contact(self, new ExternalWrenchContact(frame, reference));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_puppet_contact()")
PuppetContact& add_puppet_contact_24(DS& self)
{
  return own_contact(self, new PuppetContact());
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_task_contact(placo::dynamics::Task&)")
TaskContact& add_task_contact_25(DS& self, Task& task)
{
  return own_contact(self, new TaskContact(task));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_external_wrench_contact(string,string)")
ExternalWrenchContact& add_external_wrench_contact_26(DS& self, std::string frame, std::string reference)
{
  if (reference != "world" && reference != "local")
  {
    throw std::runtime_error("reference");
  }
  FI i = self.robot.get_frame_index(frame);
  return own_contact(self, new ExternalWrenchContact(i, reference == "local" ? pinocchio::LOCAL : pinocchio::LOCAL_WORLD_ALIGNED));
}

SPECS("P=D05;F=placo::dynamics::DynamicsSolver::add_avoid_self_collisions_constraint()")
AvoidSelfCollisionsConstraint& add_avoid_self_collisions_constraint_27(DS& self)
{
  return own_constraint(self, new AvoidSelfCollisionsConstraint());
}

}  // namespace spec