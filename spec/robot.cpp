// UNITS: tools
#include "spec.h"
#include <fstream>
#include <stdexcept>
#include <json/json.h>
#include "placo/model/robot_wrapper.h"
#include "placo/tools/utils.h"
#include "pinocchio/algorithm/center-of-mass.hpp"
#include "pinocchio/algorithm/centroidal.hpp"
#include "pinocchio/algorithm/compute-all-terms.hpp"
#include "pinocchio/algorithm/crba.hpp"
#include "pinocchio/algorithm/geometry.hpp"
#include "pinocchio/algorithm/kinematics-derivatives.hpp"
#include "pinocchio/algorithm/rnea.hpp"
#include "pinocchio/collision/collision.hpp"
#include "pinocchio/collision/distance.hpp"

using placo::model::RobotWrapper;
using Eigen::Affine3d;
using Eigen::Matrix3Xd;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace spec
{
typedef RobotWrapper RW;
typedef pinocchio::FrameIndex FI;
typedef pinocchio::JointIndex JI;

// ------------------------------------------------------------------ names
static JI joint(const RW& self, const std::string& name)
{
  if (!self.model.existJointName(name))
  {
    throw std::runtime_error("joint");
  }
  return self.model.getJointId(name);
}

static int q_offset(const RW& self, const std::string& name)
{
  return self.model.joints[joint(self, name)].idx_q();
}

static int v_offset(const RW& self, const std::string& name)
{
  return self.model.joints[joint(self, name)].idx_v();
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_frame_index(const string&)")
FI frame_index(RW& self, const std::string& frame)
{
  if (self.model.existFrame(frame))
  {
    return self.model.getFrameId(frame);
  }
  throw std::runtime_error("frame");
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_joint_offset(const string&)")
int joint_offset(RW& self, const std::string& name)
{
  return q_offset(self, name);
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_joint_v_offset(const string&)")
int joint_v_offset(RW& self, const std::string& name)
{
  return v_offset(self, name);
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_joint_size(const string&)")
int joint_size(RW& self, const std::string& name)
{
  return self.model.joints[joint(self, name)].nq();
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_joint_v_size(const string&)")
int joint_v_size(RW& self, const std::string& name)
{
  return self.model.joints[joint(self, name)].nv();
}

SPECS("P=R01;F=placo::model::RobotWrapper::set_joint(const string&,double)")
void set_joint(RW& self, const std::string& name, double value)
{
  self.state.q[q_offset(self, name)] = value;
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_joint(const string&)")
double get_joint(RW& self, const std::string& name)
{
  return self.state.q[q_offset(self, name)];
}

SPECS("P=R01;F=placo::model::RobotWrapper::set_joint_velocity(const string&,double)")
void set_joint_velocity(RW& self, const std::string& name, double value)
{
  self.state.qd[v_offset(self, name)] = value;
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_joint_velocity(const string&)")
double get_joint_velocity(RW& self, const std::string& name)
{
  return self.state.qd[v_offset(self, name)];
}

SPECS("P=R01;F=placo::model::RobotWrapper::set_joint_acceleration(const string&,double)")
void set_joint_acceleration(RW& self, const std::string& name, double value)
{
  self.state.qdd[v_offset(self, name)] = value;
}

SPECS("P=R01;F=placo::model::RobotWrapper::get_joint_acceleration(const string&)")
double get_joint_acceleration(RW& self, const std::string& name)
{
  return self.state.qdd[v_offset(self, name)];
}

SPECS("P=R01;F=placo::model::RobotWrapper::joint_names(bool)")
std::vector<std::string> joint_names(RW& self, bool include_floating_base)
{
  std::vector<std::string> names;
  for (int k = 0; k < self.model.names.size(); k++)
  {
    if (include_floating_base || (self.model.names[k] != "universe" && self.model.names[k] != "root_joint"))
    {
      names.push_back(self.model.names[k]);
    }
  }
  return names;
}

SPECS("P=R01;F=placo::model::RobotWrapper::frame_names()")
std::vector<std::string> frame_names(RW& self)
{
  std::vector<std::string> names;
  for (int k = 0; k < self.model.frames.size(); k++)
  {
    names.push_back(self.model.frames[k].name);
  }
  return names;
}

// ------------------------------------------------------------------ limits and physical parameters
SPECS("P=R03;F=placo::model::RobotWrapper::set_joint_limits(const string&,double,double)")
void set_joint_limits(RW& self, const std::string& name, double lower, double upper)
{
  int k = q_offset(self, name);
  self.model.lowerPositionLimit[k] = lower;
  self.model.upperPositionLimit[k] = upper;
}

SPECS("P=R03;F=placo::model::RobotWrapper::get_joint_limits(const string&)")
std::pair<double, double> get_joint_limits(RW& self, const std::string& name)
{
  int k = q_offset(self, name);
  return std::make_pair(self.model.lowerPositionLimit[k], self.model.upperPositionLimit[k]);
}

SPECS("P=R03;F=placo::model::RobotWrapper::set_velocity_limit(const string&,double)")
void set_velocity_limit(RW& self, const std::string& name, double limit)
{
  self.model.velocityLimit[v_offset(self, name)] = limit;
}

SPECS("P=R03;F=placo::model::RobotWrapper::set_velocity_limits(double)")
void set_velocity_limits(RW& self, double limit)
{
  std::vector<std::string> names = self.joint_names(false);
  for (int k = 0; k < names.size(); k++)
  {
    self.set_velocity_limit(names[k], limit);
  }
}

SPECS("P=R03;F=placo::model::RobotWrapper::set_torque_limit(const string&,double)")
void set_torque_limit(RW& self, const std::string& name, double limit)
{
  self.model.effortLimit[v_offset(self, name)] = limit;
}

SPECS("P=R03;F=placo::model::RobotWrapper::set_rotor_inertia(const string&,double)")
void set_rotor_inertia(RW& self, const std::string& name, double inertia)
{
  self.model.rotorInertia[v_offset(self, name)] = inertia;
}

SPECS("P=R03;F=placo::model::RobotWrapper::set_gear_ratio(const string&,double)")
void set_gear_ratio(RW& self, const std::string& name, double ratio)
{
  self.model.rotorGearRatio[v_offset(self, name)] = ratio;
}

SPECS("P=R03;F=placo::model::RobotWrapper::set_gravity(Matrix<3,1>)")
void set_gravity(RW& self, Vector3d gravity)
{
  self.model.gravity.linear() = gravity;
}

SPECS("P=R03;F=placo::model::RobotWrapper::total_mass()")
double total_mass(RW& self)
{
  double mass = 0;
  for (int k = 0; k < self.model.inertias.size(); k++)
  {
    mass = mass + self.model.inertias[k].mass();
  }
  return mass;
}

// ------------------------------------------------------------------ frames
SPECS("P=R02;F=placo::model::RobotWrapper::get_T_world_frame(pinocchio::FrameIndex)")
Affine3d T_world_frame(RW& self, FI frame)
{
  Affine3d T = Affine3d::Identity();
  T.linear() = self.data->oMf[frame].rotation();
  T.translation() = self.data->oMf[frame].translation();
  return T;
}

SPECS("P=R02;F=placo::model::RobotWrapper::get_T_world_frame(const string&)")
Affine3d T_world_frame_name(RW& self, const std::string& frame)
{
  return self.get_T_world_frame(self.get_frame_index(frame));
}

SPECS("P=R02;F=placo::model::RobotWrapper::get_T_a_b(pinocchio::FrameIndex,pinocchio::FrameIndex)")
Affine3d T_a_b(RW& self, FI a, FI b)
{
  Affine3d T_world_a = self.get_T_world_frame(a);
  Affine3d T_world_b = self.get_T_world_frame(b);
  Affine3d T = Affine3d::Identity();
  T.linear() = T_world_a.linear().transpose() * T_world_b.linear();
  T.translation() = T_world_a.linear().transpose() * (T_world_b.translation() - T_world_a.translation());
  return T;
}

SPECS("P=R02;F=placo::model::RobotWrapper::get_T_a_b(const string&,const string&)")
Affine3d T_a_b_name(RW& self, const std::string& a, const std::string& b)
{
  return self.get_T_a_b(self.get_frame_index(a), self.get_frame_index(b));
}

SPECS("P=R02;F=placo::model::RobotWrapper::get_T_world_fbase()")
Affine3d T_world_fbase(RW& self)
{
  Affine3d T = Affine3d::Identity();
  T.linear() = Eigen::Quaterniond(self.state.q[6], self.state.q[3], self.state.q[4], self.state.q[5]).toRotationMatrix();
  T.translation() = Vector3d(self.state.q[0], self.state.q[1], self.state.q[2]);
  return placo::tools::pin_se3_to_eigen(self.model.jointPlacements[1]) * T;
}

SPECS("P=R02;F=placo::model::RobotWrapper::set_T_world_fbase(Affine3d)")
void set_T_world_fbase(RW& self, Affine3d T_world_fbase)
{
  Affine3d T = placo::tools::pin_se3_to_eigen(self.model.jointPlacements[1]).inverse() * T_world_fbase;
  Eigen::Quaterniond r = Eigen::Quaterniond(T.linear());
  self.state.q[0] = T.translation()(0);
  self.state.q[1] = T.translation()(1);
  self.state.q[2] = T.translation()(2);
  self.state.q[3] = r.x();
  self.state.q[4] = r.y();
  self.state.q[5] = r.z();
  self.state.q[6] = r.w();
}

SPECS("P=R02;F=placo::model::RobotWrapper::set_T_world_frame(pinocchio::FrameIndex,Affine3d)")
void set_T_world_frame(RW& self, FI frame, Affine3d target)
{
  // the motion that brings the frame on its target, applied to the base
  Affine3d motion = target * self.get_T_world_frame(frame).inverse();
  self.set_T_world_fbase(motion * self.get_T_world_fbase());
}

SPECS("P=R02;F=placo::model::RobotWrapper::set_T_world_frame(const string&,Affine3d)")
void set_T_world_frame_name(RW& self, const std::string& frame, Affine3d target)
{
  self.set_T_world_frame(self.get_frame_index(frame), target);
}

// ------------------------------------------------------------------ jacobians
static pinocchio::ReferenceFrame reference(const std::string& name)
{
  if (name == "world")
  {
    return pinocchio::WORLD;
  }
  if (name == "local")
  {
    return pinocchio::LOCAL;
  }
  if (name == "local_world_aligned")
  {
    return pinocchio::LOCAL_WORLD_ALIGNED;
  }
  throw std::runtime_error("reference");
}

SPECS("P=R02;F=placo::model::RobotWrapper::frame_jacobian(pinocchio::FrameIndex,pinocchio::ReferenceFrame)")
MatrixXd frame_jacobian(RW& self, FI frame, pinocchio::ReferenceFrame ref)
{
  MatrixXd J = MatrixXd::Zero(6, self.model.nv);
  pinocchio::getFrameJacobian(self.model, *self.data, frame, ref, J);
  return J;
}

SPECS("P=R02;F=placo::model::RobotWrapper::frame_jacobian(const string&,const string&)")
MatrixXd frame_jacobian_name(RW& self, const std::string& frame, const std::string& ref)
{
  return self.frame_jacobian(self.get_frame_index(frame), reference(ref));
}

SPECS("P=R02;F=placo::model::RobotWrapper::frame_jacobian_time_variation(pinocchio::FrameIndex,pinocchio::ReferenceFrame)")
MatrixXd frame_jacobian_tv(RW& self, FI frame, pinocchio::ReferenceFrame ref)
{
  MatrixXd J = MatrixXd::Zero(6, self.model.nv);
  pinocchio::getFrameJacobianTimeVariation(self.model, *self.data, frame, ref, J);
  return J;
}

SPECS("P=R02;F=placo::model::RobotWrapper::frame_jacobian_time_variation(const string&,const string&)")
MatrixXd frame_jacobian_tv_name(RW& self, const std::string& frame, const std::string& ref)
{
  return self.frame_jacobian_time_variation(self.get_frame_index(frame), reference(ref));
}

SPECS("P=R02;F=placo::model::RobotWrapper::joint_jacobian(pinocchio::JointIndex,pinocchio::ReferenceFrame)")
MatrixXd joint_jacobian(RW& self, JI joint, pinocchio::ReferenceFrame ref)
{
  MatrixXd J = MatrixXd::Zero(6, self.model.nv);
  pinocchio::getJointJacobian(self.model, *self.data, joint, ref, J);
  return J;
}

SPECS("P=R02;F=placo::model::RobotWrapper::joint_jacobian(const string&,const string&)")
MatrixXd joint_jacobian_name(RW& self, const std::string& name, const std::string& ref)
{
  return self.joint_jacobian(joint(self, name), reference(ref));
}

SPECS("P=R02;F=placo::model::RobotWrapper::joint_jacobian_time_variation(pinocchio::JointIndex,pinocchio::ReferenceFrame)")
MatrixXd joint_jacobian_tv(RW& self, JI joint, pinocchio::ReferenceFrame ref)
{
  MatrixXd J = MatrixXd::Zero(6, self.model.nv);
  pinocchio::getJointJacobianTimeVariation(self.model, *self.data, joint, ref, J);
  return J;
}

SPECS("P=R02;F=placo::model::RobotWrapper::joint_jacobian_time_variation(const string&,const string&)")
MatrixXd joint_jacobian_tv_name(RW& self, const std::string& name, const std::string& ref)
{
  return self.joint_jacobian_time_variation(joint(self, name), reference(ref));
}

SPECS("P=R02;F=placo::model::RobotWrapper::relative_position_jacobian(pinocchio::FrameIndex,pinocchio::FrameIndex)")
MatrixXd relative_position_jacobian(RW& self, FI a, FI b)
{
  // p = R^T (p_b - p_a):  dp = R^T (v_b - v_a) - R^T [w_a] (p_b - p_a) = R^T (v_b - v_a + [p_b - p_a] w_a)
  MatrixXd Ja = self.frame_jacobian(a, pinocchio::LOCAL_WORLD_ALIGNED);
  MatrixXd Jb = self.frame_jacobian(b, pinocchio::LOCAL_WORLD_ALIGNED);
  Affine3d Ta = self.get_T_world_frame(a);
  Affine3d Tb = self.get_T_world_frame(b);
  Vector3d d = Tb.translation() - Ta.translation();
  return Ta.linear().transpose() * (Jb.topRows(3) - Ja.topRows(3) + pinocchio::skew(d) * Ja.bottomRows(3));
}

SPECS("P=R02;F=placo::model::RobotWrapper::relative_position_jacobian(const string&,const string&)")
MatrixXd relative_position_jacobian_name(RW& self, const std::string& a, const std::string& b)
{
  return self.relative_position_jacobian(self.get_frame_index(a), self.get_frame_index(b));
}

SPECS("P=R02;F=placo::model::RobotWrapper::get_frame_hessian(pinocchio::FrameIndex,int)")
MatrixXd frame_hessian(RW& self, FI frame, int k)
{
  pinocchio::SE3 T = self.model.frames[frame].placement;
  pinocchio::Tensor<double, 3, 0> H =
      pinocchio::getJointKinematicHessian(self.model, *self.data, self.model.frames[frame].parent, pinocchio::LOCAL);
  Eigen::Map<MatrixXd> slice(H.data() + k * (6 * self.model.nv), 6, self.model.nv);
  return T.inverse().toActionMatrix() * slice;
}

// ------------------------------------------------------------------ centre of mass, dynamics quantities
SPECS("P=R02;F=placo::model::RobotWrapper::com_world()")
Vector3d com_world(RW& self)
{
  pinocchio::centerOfMass(self.model, *self.data);
  return self.data->com[0];
}

SPECS("P=R02;F=placo::model::RobotWrapper::com_jacobian()")
Matrix3Xd com_jacobian(RW& self)
{
  return pinocchio::jacobianCenterOfMass(self.model, *self.data, self.state.q);
}

SPECS("P=R02;F=placo::model::RobotWrapper::com_jacobian_time_variation()")
Matrix3Xd com_jacobian_tv(RW& self)
{
  MatrixXd dA = pinocchio::computeCentroidalMapTimeVariation(self.model, *self.data, self.state.q, self.state.qd);
  return dA.topRows(3) / self.total_mass();
}

SPECS("P=R05;F=placo::model::RobotWrapper::centroidal_map()")
MatrixXd centroidal_map(RW& self)
{
  return pinocchio::computeCentroidalMap(self.model, *self.data, self.state.q);
}

SPECS("P=R05;F=placo::model::RobotWrapper::generalized_gravity()")
VectorXd generalized_gravity(RW& self)
{
  return pinocchio::computeGeneralizedGravity(self.model, *self.data, self.state.q);
}

SPECS("P=R05;F=placo::model::RobotWrapper::non_linear_effects()")
VectorXd non_linear_effects(RW& self)
{
  return pinocchio::nonLinearEffects(self.model, *self.data, self.state.q, self.state.qd);
}

SPECS("P=R05;F=placo::model::RobotWrapper::mass_matrix()")
MatrixXd mass_matrix(RW& self)
{
  pinocchio::crba(self.model, *self.data, self.state.q);
  // crba only fills the upper part
  self.data->M.triangularView<Eigen::StrictlyLower>() = self.data->M.transpose().triangularView<Eigen::StrictlyLower>();
  MatrixXd M = self.data->M;
  for (int k = 0; k < M.rows(); k++)
  {
    double gear = self.model.rotorGearRatio[k];
    M(k, k) = M(k, k) + self.model.rotorInertia[k] * gear * gear;
  }
  return M;
}

SPECS("P=R05;F=placo::model::RobotWrapper::static_gravity_compensation_torques(pinocchio::FrameIndex)")
VectorXd static_gravity(RW& self, FI frame)
{
  // tau + J^T f = g with no torque on the six base rows
  VectorXd g = self.generalized_gravity();
  MatrixXd J = self.frame_jacobian(frame, pinocchio::LOCAL_WORLD_ALIGNED);
  MatrixXd Ju = J.block(0, 0, 6, 6);
  VectorXd g_u = g.block(0, 0, 6, 1);
  VectorXd f = Ju.transpose().inverse() * g_u;
  return g - J.transpose() * f;
}

SPECS("P=R05;F=placo::model::RobotWrapper::static_gravity_compensation_torques(string)")
VectorXd static_gravity_name(RW& self, std::string frame)
{
  return self.static_gravity_compensation_torques(self.get_frame_index(frame));
}

SPECS("P=R05;F=placo::model::RobotWrapper::torques_from_acceleration_with_fixed_frame(Matrix<-1,1>,pinocchio::FrameIndex)")
VectorXd torques_fixed(RW& self, VectorXd qdd_a, FI frame)
{
  VectorXd h = self.non_linear_effects();
  MatrixXd M = self.mass_matrix();
  MatrixXd J = self.frame_jacobian(frame, pinocchio::LOCAL_WORLD_ALIGNED);
  MatrixXd dJ = self.frame_jacobian_time_variation(frame, pinocchio::LOCAL_WORLD_ALIGNED);
  int n = self.model.nv;
  MatrixXd Ju = J.block(0, 0, 6, 6);
  MatrixXd Ja = J.rightCols(n - 6);
  // the frame does not accelerate
  VectorXd qdd(n);
  qdd.topRows(6) = -Ju.inverse() * (Ja * qdd_a + dJ * self.state.qd);
  qdd.bottomRows(n - 6) = qdd_a;
  // M qdd + h = tau + J^T f, no torque on the six base rows
  VectorXd tau = M * qdd + h;
  VectorXd f = Ju.transpose().inverse() * tau.topRows(6);
  return (tau - J.transpose() * f).bottomRows(n - 6);
}

SPECS("P=R05;F=placo::model::RobotWrapper::torques_from_acceleration_with_fixed_frame(Matrix<-1,1>,string)")
VectorXd torques_fixed_name(RW& self, VectorXd qdd_a, std::string frame)
{
  return self.torques_from_acceleration_with_fixed_frame(qdd_a, self.get_frame_index(frame));
}

// ------------------------------------------------------------------ state
SPECS("P=R04;F=placo::model::RobotWrapper::neutral_state()")
RW::State neutral_state(RW& self)
{
  RW::State s;
  s.q = pinocchio::neutral(self.model);
  s.qd = VectorXd::Zero(self.model.nv);
  s.qdd = VectorXd::Zero(self.model.nv);
  return s;
}

SPECS("P=R04;F=placo::model::RobotWrapper::reset()")
void reset(RW& self)
{
  self.state = self.neutral_state();
}

SPECS("P=R04;F=placo::model::RobotWrapper::update_kinematics()")
void update_kinematics(RW& self)
{
  pinocchio::computeJointJacobiansTimeVariation(self.model, *self.data, self.state.q, self.state.qd);
  pinocchio::computeJointJacobians(self.model, *self.data, self.state.q);
  pinocchio::framesForwardKinematics(self.model, *self.data, self.state.q);
}

SPECS("P=R04;F=placo::model::RobotWrapper::compute_hessians()")
void compute_hessians(RW& self)
{
  pinocchio::computeJointKinematicHessians(self.model, *self.data);
}

SPECS("P=R04;F=placo::model::RobotWrapper::integrate(double);nodims=1")
void integrate(RW& self, double dt)
{
  if (self.state.qd.rows() == 0)
  {
    self.state.qd = VectorXd::Zero(self.model.nv);
  }
  if (self.state.qdd.rows() > 0)
  {
    self.state.qd = self.state.qdd * dt + self.state.qd;
  }
  self.state.q = pinocchio::integrate(self.model, self.state.q, dt * self.state.qd);
}

SPECS("P=R04;F=placo::model::RobotWrapper::add_q_noise(double)")
void add_q_noise(RW& self, double noise)
{
  VectorXd r = pinocchio::randomConfiguration(self.model);
  spec::require(self.model.lowerPositionLimit.size() == self.model.nq && self.model.upperPositionLimit.size() == self.model.nq);
  spec::require(self.state.q.size() == self.model.nq && r.size() == self.model.nq);
  for (int k = 7; k < self.model.nq; k++)
  {
    bool limited = self.model.lowerPositionLimit(k) != std::numeric_limits<double>::lowest() &&
                   self.model.upperPositionLimit(k) != std::numeric_limits<double>::max();
    if (limited)
    {
      self.state.q(k) = self.state.q(k) + noise * (r(k) - self.state.q(k));
    }
  }
}

// ------------------------------------------------------------------ collisions
SPECS("P=R06;F=placo::model::RobotWrapper::Collision::operator==(const placo::model::RobotWrapper::Collision &)")
bool collision_eq(RW::Collision& self, const RW::Collision& other)
{
  return self.objA == other.objA && self.objB == other.objB;
}

SPECS("P=R06;F=placo::model::RobotWrapper::Distance::operator==(const placo::model::RobotWrapper::Distance &)")
bool distance_eq(RW::Distance& self, const RW::Distance& other)
{
  return self.objA == other.objA && self.objB == other.objB;
}

SPECS("P=R06;F=placo::model::RobotWrapper::self_collisions(bool)")
std::vector<RW::Collision> self_collisions(RW& self, bool stop_at_first)
{
  std::vector<RW::Collision> found;
  pinocchio::GeometryData g(self.collision_model);
  for (auto& request : g.collisionRequests)
  {
    request.enable_contact = true;
  }
  pinocchio::computeCollisions(self.model, *self.data, self.collision_model, g, self.state.q);
  for (int k = 0; k < self.collision_model.collisionPairs.size(); k++)
  {
    if (g.collisionResults[k].isCollision())
    {
      int a = self.collision_model.collisionPairs[k].first;
      int b = self.collision_model.collisionPairs[k].second;
      RW::Collision c;
      c.objA = a;
      c.objB = b;
      c.parentA = self.collision_model.geometryObjects[a].parentJoint;
      c.parentB = self.collision_model.geometryObjects[b].parentJoint;
      c.bodyA = self.collision_model.geometryObjects[a].name;
      c.bodyB = self.collision_model.geometryObjects[b].name;
      for (int i = 0; i < g.collisionResults[k].numContacts(); i++)
      {
        c.contacts.push_back(g.collisionResults[k].getContact(i).pos);
      }
      found.push_back(c);
      if (stop_at_first)
      {
        break;
      }
    }
  }
  return found;
}

SPECS("P=R06;F=placo::model::RobotWrapper::distances()")
std::vector<RW::Distance> distances(RW& self)
{
  std::vector<RW::Distance> all;
  pinocchio::GeometryData g(self.collision_model);
  for (auto& request : g.collisionRequests)
  {
    request.enable_contact = true;
  }
  pinocchio::computeDistances(self.model, *self.data, self.collision_model, g, self.state.q);
  for (int k = 0; k < self.collision_model.collisionPairs.size(); k++)
  {
    int a = self.collision_model.collisionPairs[k].first;
    int b = self.collision_model.collisionPairs[k].second;
    RW::Distance d;
    d.objA = a;
    d.objB = b;
    d.parentA = self.collision_model.geometryObjects[a].parentJoint;
    d.parentB = self.collision_model.geometryObjects[b].parentJoint;
    d.pointA = g.distanceResults[k].nearest_points[0];
    d.pointB = g.distanceResults[k].nearest_points[1];
    d.min_distance = g.distanceResults[k].min_distance;
    all.push_back(d);
  }
  return all;
}

SPECS("P=R06;F=placo::model::RobotWrapper::load_collision_pairs(const string&)")
void load_collision_pairs(RW& self, const std::string& filename)
{
  // geometries attached to each body
  std::map<std::string, std::vector<size_t>> objects;
  for (size_t k = 0; k < self.collision_model.geometryObjects.size(); k++)
  {
    FI parent = self.collision_model.geometryObjects[k].parentFrame;
    if (parent != std::numeric_limits<FI>::max())
    {
      objects[self.model.frames[parent].name].push_back(k);
    }
  }
  self.collision_model.removeAllCollisionPairs();
  std::ifstream f(filename);
  if (!f.is_open())
  {
    throw std::runtime_error("file");
  }
  Json::Value pairs;
  f >> pairs;
  for (size_t k = 0; k < pairs.size(); k++)
  {
    Json::Value& pair = pairs[(int)k];
    if (pair.size() != 2)
    {
      continue;
    }
    if (pair[0].isInt() && pair[1].isInt())
    {
      self.collision_model.addCollisionPair(pinocchio::CollisionPair(pair[0].asInt(), pair[1].asInt()));
      continue;
    }
    if (!pair[0].isString() || !pair[1].isString())
    {
      throw std::runtime_error("entry");
    }
    std::string a = pair[0].asString();
    std::string b = pair[1].asString();
    if (!objects.count(a) || !objects.count(b))
    {
      throw std::runtime_error("body");
    }
    for (size_t i = 0; i < objects[a].size(); i++)
    {
      for (size_t j = 0; j < objects[b].size(); j++)
      {
        self.collision_model.addCollisionPair(pinocchio::CollisionPair(objects[a][i], objects[b][j]));
      }
    }
  }
}
}  // namespace spec
