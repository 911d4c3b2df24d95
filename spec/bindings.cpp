// References for the Python-facing functions written in the bindings.
// UNITS: tools humanoid_a kin_solver dyn_solver problem problem_expr
#include <pinocchio/fwd.hpp>
#include <boost/python.hpp>
#include "spec.h"
#include "placo/model/robot_wrapper.h"
#include "placo/humanoid/humanoid_robot.h"
#include "placo/humanoid/footsteps_planner.h"
#include "placo/humanoid/walk_tasks.h"
#include "placo/humanoid/dummy_walk.h"
#include "placo/kinematics/kinematics_solver.h"
#include "placo/dynamics/dynamics_solver.h"
#include "placo/problem/problem.h"
#include "placo/problem/sparsity.h"
#include "placo/problem/constraint.h"
#include "placo/tools/prioritized.h"

template <typename K, typename V>
void update_map(std::map<K, V>& map_, boost::python::dict& py_dict);

namespace spec
{
using namespace placo;
using placo::dynamics::DynamicsSolver;
using placo::humanoid::FootstepsPlanner;
using placo::humanoid::HumanoidRobot;
using placo::humanoid::WalkTasks;
using placo::model::RobotWrapper;
typedef std::map<std::string, double> Dict;

// robot ------------------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::model::RobotWrapper.get_joint_limits")
Eigen::Vector2d get_joint_limits(RobotWrapper& self, const std::string& joint)
{
  std::pair<double, double> l = self.get_joint_limits(joint);
  Eigen::Vector2d v;
  v << l.first, l.second;
  return v;
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.get_frame_hessian")
Eigen::MatrixXd get_frame_hessian(RobotWrapper& self, const std::string frame, const std::string joint)
{
  return self.get_frame_hessian(self.get_frame_index(frame), self.get_joint_v_offset(joint));
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.static_gravity_compensation_torques")
Eigen::VectorXd static_torques(RobotWrapper& self, const std::string& frame)
{
  return self.static_gravity_compensation_torques(frame);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.static_gravity_compensation_torques_dict")
Dict static_torques_dict(RobotWrapper& self, const std::string& frame)
{
  Dict d;
  Eigen::VectorXd tau = self.static_gravity_compensation_torques(frame);
  for (auto& name : self.joint_names())
    d[name] = tau[self.get_joint_v_offset(name)];
  return d;
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.torques_from_acceleration_with_fixed_frame")
Eigen::VectorXd torques_fixed(RobotWrapper& self, Eigen::VectorXd qdd_a, const std::string& frame)
{
  return self.torques_from_acceleration_with_fixed_frame(qdd_a, frame);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.torques_from_acceleration_with_fixed_frame_dict")
Dict torques_fixed_dict(RobotWrapper& self, Eigen::VectorXd qdd_a, const std::string& frame)
{
  Dict d;
  Eigen::VectorXd tau = self.torques_from_acceleration_with_fixed_frame(qdd_a, frame);
  for (auto& name : self.joint_names())
    d[name] = tau[self.get_joint_v_offset(name) - 6];
  return d;
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.get_T_world_frame")
Eigen::Affine3d get_T_world_frame(RobotWrapper& self, const std::string& frame)
{
  return self.get_T_world_frame(frame);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.get_T_a_b")
Eigen::Affine3d get_T_a_b(RobotWrapper& self, const std::string& a, const std::string& b)
{
  return self.get_T_a_b(a, b);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.set_T_world_frame")
void set_T_world_frame(RobotWrapper& self, const std::string& frame, Eigen::Affine3d T)
{
  self.set_T_world_frame(frame, T);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.frame_jacobian")
Eigen::MatrixXd frame_jacobian(RobotWrapper& self, const std::string& frame, const std::string& reference)
{
  return self.frame_jacobian(frame, reference);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.frame_jacobian_time_variation")
Eigen::MatrixXd frame_jacobian_dot(RobotWrapper& self, const std::string& frame, const std::string& reference)
{
  return self.frame_jacobian_time_variation(frame, reference);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.relative_position_jacobian")
Eigen::MatrixXd relative_position_jacobian(RobotWrapper& self, const std::string& a, const std::string& b)
{
  return self.relative_position_jacobian(a, b);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper.joint_jacobian")
Eigen::MatrixXd joint_jacobian(RobotWrapper& self, const std::string& joint, const std::string& reference)
{
  return self.joint_jacobian(joint, reference);
}

SPECS("P=B02;F=bind:placo::model::RobotWrapper::Collision.get_contact")
Eigen::Vector3d collision_contact(RobotWrapper::Collision& self, int index)
{
  return self.contacts.at(index);
}

// humanoid robot ---------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::humanoid::HumanoidRobot.get_torques")
Eigen::VectorXd get_torques(HumanoidRobot& self, Eigen::VectorXd qdd_a, Eigen::VectorXd contact_forces, bool use_nle)
{
  return self.get_torques(qdd_a, contact_forces, use_nle);
}

SPECS("P=B02;F=bind:placo::humanoid::HumanoidRobot.get_torques_dict")
Dict get_torques_dict(HumanoidRobot& self, Eigen::VectorXd qdd_a, Eigen::VectorXd contact_forces, bool use_nle)
{
  Dict d;
  Eigen::VectorXd tau = self.get_torques(qdd_a, contact_forces, use_nle);
  for (auto& name : self.joint_names())
    d[name] = tau[self.get_joint_v_offset(name)];
  return d;
}

SPECS("P=B02;F=bind:placo::humanoid::HumanoidRobot.get_support_side")
HumanoidRobot::Side get_support_side(const HumanoidRobot& self)
{
  return self.support_side;
}

SPECS("P=B02;F=bind:placo::humanoid::HumanoidRobot.get_T_world_support")
Eigen::Affine3d get_T_world_support(const HumanoidRobot& self)
{
  return self.T_world_support;
}

SPECS("P=B02;F=bind:placo::humanoid::HumanoidRobot.set_T_world_support")
void set_T_world_support(HumanoidRobot& self, const Eigen::Affine3d& T)
{
  self.T_world_support = T;
}

// footsteps --------------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Footstep.foot_length.set")
void set_foot_length(FootstepsPlanner::Footstep& self, double v)
{
  self.foot_length = v;
  self.computed_polygon = false;
}

SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Footstep.foot_width.set")
void set_foot_width(FootstepsPlanner::Footstep& self, double v)
{
  self.foot_width = v;
  self.computed_polygon = false;
}

SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Footstep.frame")
Eigen::Affine3d get_footstep_frame(FootstepsPlanner::Footstep& self)
{
  return self.frame;
}

SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Footstep.frame.set")
void set_footstep_frame(FootstepsPlanner::Footstep& self, const Eigen::Affine3d& T)
{
  self.frame = T;
  self.computed_polygon = false;
}

SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Footstep.set_frame_xy")
void set_frame_xy(FootstepsPlanner::Footstep& self, double x, double y)
{
  self.frame.translation()[0] = x;
  self.frame.translation()[1] = y;
  self.computed_polygon = false;
}

SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Support.set_start")
void set_start(FootstepsPlanner::Support& self, bool b)
{
  self.start = b;
}

SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Support.set_end")
void set_end(FootstepsPlanner::Support& self, bool b)
{
  self.end = b;
}

SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner::Support.footsteps.set")
void set_footsteps(FootstepsPlanner::Support& self, const std::vector<FootstepsPlanner::Footstep>& footsteps)
{
  self.footsteps = footsteps;
  self.computed_polygon = false;
}

// the first `index` supports; when asked for an end, it is closed by a double support on the last foot and the other foot of the
// support that follows
SPECS("P=B02;F=bind:placo::humanoid::FootstepsPlanner.truncate_supports")
std::vector<FootstepsPlanner::Support> truncate_supports(const std::vector<FootstepsPlanner::Support>& self, int index, bool add_end)
{
  if (index > (int)self.size())
    throw std::out_of_range("");
  std::vector<FootstepsPlanner::Support> head;
  for (int i = 0; i < index; i++)
    head.push_back(self[i]);
  if (!add_end)
    return head;
  if (head.empty())
    throw std::out_of_range("");
  if (head.back().end)
    return head;
  if (index == (int)self.size())
    throw std::out_of_range("");
  FootstepsPlanner::Support last({ head.back().footsteps[0] });
  last.end = true;
  bool first = HumanoidRobot::other_side(self[index].footsteps[0].side) == last.footsteps[0].side;
  last.footsteps.push_back(self[index].footsteps[first ? 0 : 1]);
  head.push_back(last);
  return head;
}

// walk tasks -------------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.get_tasks_error")
Dict get_tasks_error(WalkTasks& self)
{
  Dict d;
  std::map<std::string, Eigen::Vector3d> errors = self.get_tasks_error();
  for (auto key : errors)
  {
    d[key.first + "_x"] = key.second[0];
    d[key.first + "_y"] = key.second[1];
    d[key.first + "_z"] = key.second[2];
  }
  return d;
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.initialize_tasks")
void initialize_tasks(WalkTasks& self, kinematics::KinematicsSolver& solver, HumanoidRobot& robot)
{
  self.initialize_tasks(&solver, &robot);
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.update_tasks_from_trajectory")
void update_tasks_from_trajectory(WalkTasks& self, humanoid::WalkPatternGenerator::Trajectory& trajectory, double t)
{
  self.update_tasks(trajectory, t);
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.update_tasks")
void update_tasks(WalkTasks& self, Eigen::Affine3d T_world_left, Eigen::Affine3d T_world_right, Eigen::Vector3d com_world,
                  Eigen::Matrix3d R_world_trunk)
{
  self.update_tasks(T_world_left, T_world_right, com_world, R_world_trunk);
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.reach_initial_pose")
void reach_initial_pose(WalkTasks& self, Eigen::Affine3d T_world_left, double feet_spacing, double com_height, double trunk_pitch)
{
  self.reach_initial_pose(T_world_left, feet_spacing, com_height, trunk_pitch);
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.solver")
kinematics::KinematicsSolver& walk_solver(WalkTasks& self)
{
  return *self.solver;
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.trunk_orientation_task")
kinematics::OrientationTask& walk_trunk_orientation(WalkTasks& self)
{
  return *self.trunk_orientation_task;
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.com_task")
kinematics::CoMTask& walk_com(WalkTasks& self)
{
  return *self.com_task;
}

SPECS("P=B02;F=bind:placo::humanoid::WalkTasks.trunk_task")
kinematics::PositionTask& walk_trunk(WalkTasks& self)
{
  return *self.trunk_task;
}

SPECS("P=B02;F=bind:placo::humanoid::DummyWalk.robot")
RobotWrapper& dummy_robot(humanoid::DummyWalk& self)
{
  return self.robot;
}

SPECS("P=B02;F=bind:placo::humanoid::DummyWalk.parameters")
humanoid::HumanoidParameters& dummy_parameters(humanoid::DummyWalk& self)
{
  return self.parameters;
}

// kinematics -------------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::kinematics::KinematicsSolver.robot")
RobotWrapper& kin_robot(const kinematics::KinematicsSolver& self)
{
  return self.robot;
}

SPECS("P=B02;F=bind:placo::kinematics::PositionTask.target_world")
Eigen::Vector3d kin_position_target(const kinematics::PositionTask& self)
{
  return self.target_world;
}

SPECS("P=B02;F=bind:placo::kinematics::CoMTask.target_world")
Eigen::Vector3d kin_com_target(const kinematics::CoMTask& self)
{
  return self.target_world;
}

SPECS("P=B02;F=bind:placo::kinematics::AxisAlignTask.axis_frame")
Eigen::Vector3d kin_axis_frame(const kinematics::AxisAlignTask& self)
{
  return self.axis_frame;
}

SPECS("P=B02;F=bind:placo::kinematics::FrameTask.position")
kinematics::PositionTask& kin_frame_position(const kinematics::FrameTask& self)
{
  return *self.position;
}

SPECS("P=B02;F=bind:placo::kinematics::FrameTask.orientation")
kinematics::OrientationTask& kin_frame_orientation(const kinematics::FrameTask& self)
{
  return *self.orientation;
}

SPECS("P=B02;F=bind:placo::kinematics::RelativeFrameTask.position")
kinematics::RelativePositionTask& kin_rel_position(const kinematics::RelativeFrameTask& self)
{
  return self.position;
}

SPECS("P=B02;F=bind:placo::kinematics::RelativeFrameTask.orientation")
kinematics::RelativeOrientationTask& kin_rel_orientation(const kinematics::RelativeFrameTask& self)
{
  return self.orientation;
}

// dynamics ---------------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::dynamics::DynamicsSolver::Result.tau_dict")
Dict tau_dict(const DynamicsSolver::Result& self, RobotWrapper& robot)
{
  Dict d;
  for (auto& name : robot.joint_names())
    d[name] = self.tau[robot.get_joint_v_offset(name)];
  return d;
}

SPECS("P=B02;F=bind:placo::dynamics::PointContact.position_task")
dynamics::PositionTask& point_position(dynamics::PointContact& self)
{
  return *self.position_task;
}

SPECS("P=B02;F=bind:placo::dynamics::Contact6D.position_task")
dynamics::PositionTask& c6d_position(dynamics::Contact6D& self)
{
  return *self.position_task;
}

SPECS("P=B02;F=bind:placo::dynamics::Contact6D.orientation_task")
dynamics::OrientationTask& c6d_orientation(dynamics::Contact6D& self)
{
  return *self.orientation_task;
}

SPECS("P=B02;F=bind:placo::dynamics::LineContact.position_task")
dynamics::PositionTask& line_position(dynamics::LineContact& self)
{
  return *self.position_task;
}

SPECS("P=B02;F=bind:placo::dynamics::LineContact.orientation_task")
dynamics::OrientationTask& line_orientation(dynamics::LineContact& self)
{
  return *self.orientation_task;
}

SPECS("P=B02;F=bind:placo::dynamics::LineContact.R_world_surface")
Eigen::Matrix3d line_surface(dynamics::LineContact& self)
{
  return self.R_world_surface;
}

SPECS("P=B02;F=bind:placo::dynamics::LineContact.R_world_surface.set")
void line_surface_set(dynamics::LineContact& self, Eigen::Matrix3d R)
{
  self.R_world_surface = R;
}

SPECS("P=B02;F=bind:placo::dynamics::DynamicsSolver.extra_force")
Eigen::VectorXd extra_force(DynamicsSolver& self)
{
  return self.extra_force;
}

SPECS("P=B02;F=bind:placo::dynamics::DynamicsSolver.extra_force.set")
void extra_force_set(DynamicsSolver& self, Eigen::VectorXd f)
{
  self.extra_force = f;
}

SPECS("P=B02;F=bind:placo::dynamics::DynamicsSolver.robot")
RobotWrapper& dyn_robot(const DynamicsSolver& self)
{
  return self.robot;
}

SPECS("P=B02;F=bind:placo::dynamics::DynamicsSolver.count_contacts")
size_t count_contacts(DynamicsSolver& self)
{
  return self.contacts.size();
}

SPECS("P=B02;F=bind:placo::dynamics::DynamicsSolver.get_contact")
dynamics::Contact& dyn_contact(DynamicsSolver& self, int i)
{
  return *self.contacts.at(i);
}

SPECS("P=B02;F=bind:placo::dynamics::FrameTask.position")
dynamics::PositionTask& dyn_frame_position(const dynamics::FrameTask& self)
{
  return *self.position;
}

SPECS("P=B02;F=bind:placo::dynamics::FrameTask.orientation")
dynamics::OrientationTask& dyn_frame_orientation(const dynamics::FrameTask& self)
{
  return *self.orientation;
}

SPECS("P=B02;F=bind:placo::dynamics::RelativeFrameTask.position")
dynamics::RelativePositionTask& dyn_rel_position(const dynamics::RelativeFrameTask& self)
{
  return *self.position;
}

SPECS("P=B02;F=bind:placo::dynamics::RelativeFrameTask.orientation")
dynamics::RelativeOrientationTask& dyn_rel_orientation(const dynamics::RelativeFrameTask& self)
{
  return *self.orientation;
}

// problem ----------------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::problem::Sparsity.intervals")
Eigen::MatrixXi intervals(const problem::Sparsity& self)
{
  Eigen::MatrixXi m(self.intervals.size(), 2);
  int k = 0;
  for (auto& interval : self.intervals)
  {
    m(k, 0) = interval.start;
    m(k, 1) = interval.end;
    k++;
  }
  return m;
}

SPECS("P=B02;F=bind:placo::problem::ProblemConstraint.priority")
const char* constraint_priority(const problem::ProblemConstraint& self)
{
  return self.priority == problem::ProblemConstraint::Hard ? "hard" : "soft";
}

SPECS("P=B02;F=bind:placo::problem::Problem.slacks")
Eigen::VectorXd slacks(const problem::Problem& self)
{
  return self.slacks;
}

SPECS("P=B02;F=bind:placo::tools::Prioritized.priority")
std::string priority(tools::Prioritized& self)
{
  return self.priority_name();
}

// dictionaries -----------------------------------------------------------------------------------------------------
SPECS("P=B02;F=bind:placo::kinematics::JointsTask.set_joints")
void kinematics_set_joints(kinematics::JointsTask& self, boost::python::dict& d)
{
  ::update_map<std::string, double>(self.joints, d);
}

SPECS("P=B02;F=bind:placo::dynamics::JointsTask.set_joints")
void dynamics_set_joints(dynamics::JointsTask& self, boost::python::dict& d)
{
  ::update_map<std::string, double>(self.joints, d);
}

SPECS("P=B02;F=bind:placo::dynamics::JointsTask.set_joints_velocities")
void dynamics_set_joints_velocities(dynamics::JointsTask& self, boost::python::dict& d)
{
  ::update_map<std::string, double>(self.djoints, d);
}

SPECS("P=B02;F=update_map<std::basic_string<char>, double>(std::map<string,double>&, boost::python::dict&)")
void update_map_(std::map<std::string, double>& m, boost::python::dict& d)
{
  boost::python::list keys = d.keys();
  for (int i = 0; i < boost::python::len(keys); ++i)
  {
    boost::python::extract<std::string> k(keys[i]);
    if (!k.check())
      continue;
    std::string key = k;
    boost::python::extract<double> v(d[key]);
    if (!v.check())
      continue;
    double value = v;
    m[key] = value;
  }
}

// numpy ------------------------------------------------------------------------------------------------------------
}  // namespace spec
