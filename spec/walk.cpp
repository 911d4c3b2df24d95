// UNITS: problem_expr problem tools humanoid_a humanoid_b
#include "spec.h"
#include <stdexcept>
#include <algorithm>
#include "placo/humanoid/footsteps_planner.h"
#include "placo/humanoid/humanoid_parameters.h"
#include "placo/humanoid/humanoid_robot.h"
#include "placo/humanoid/lipm.h"
#include "placo/humanoid/swing_foot_cubic.h"
#include "placo/humanoid/walk_pattern_generator.h"
#include "placo/humanoid/walk_tasks.h"
#include "placo/humanoid/dummy_walk.h"
#include "placo/problem/polygon_constraint.h"
#include "placo/tools/utils.h"
#include "pinocchio/math/rpy.hpp"

using namespace placo::humanoid;
using placo::kinematics::KinematicsSolver;
using placo::model::RobotWrapper;
using placo::problem::Expression;
using placo::problem::PolygonConstraint;
using placo::problem::Problem;
using placo::problem::ProblemConstraint;
using placo::problem::Variable;
using placo::tools::CubicSpline;
using placo::tools::flatten_on_floor;
using placo::tools::frame_yaw;
using placo::tools::interpolate_frames;
using Eigen::Affine3d;
using Eigen::AngleAxisd;
using Eigen::Matrix2d;
using Eigen::Matrix3d;
using Eigen::Vector2d;
using Eigen::Vector3d;

namespace spec
{
typedef HumanoidRobot HR;
typedef FootstepsPlanner FP;
typedef FootstepsPlanner::Support Support;
typedef WalkPatternGenerator WPG;
typedef WalkPatternGenerator::Trajectory Tr;
typedef WalkPatternGenerator::TrajectoryPart Part;

// ------------------------------------------------------------------------------------------------ trajectories (H07)

// the part containing t: the first one before the start, the last one after the end
static int part_at(std::vector<Part>& parts, double t)
{
  if (parts.empty())
    throw std::runtime_error("no parts");
  int low = 0, high = (int)parts.size() - 1;
  while (low != high)
  {
    int mid = (low + high) / 2;
    if (t < parts[mid].t_start)
      high = mid;
    else if (t > parts[mid].t_end)
      low = mid + 1;
    else
      return mid;
  }
  return low;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::TrajectoryPart::TrajectoryPart(FootstepsPlanner::Support,double)")
void part_ctor(Part& self, Support support, double t_start)
{
  self.t_start = t_start;
  self.support = support;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::Trajectory(double,double,double,double)")
void tr_ctor(Tr& self, double com_target_z, double t_start, double trunk_pitch, double trunk_roll)
{
  self.t_start = t_start;
  self.com_target_z = com_target_z;
  self.trunk_pitch = trunk_pitch;
  self.trunk_roll = trunk_roll;
  self.replan_success = true;
  self.T = Affine3d::Identity();
  self.left_foot_yaw = CubicSpline(true);
  self.right_foot_yaw = CubicSpline(true);
  self.trunk_yaw = CubicSpline(true);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::is_flying(HumanoidRobot::Side,double)")
bool tr_is_flying(Tr& self, HR::Side side, double t)
{
  Support& s = self.parts[part_at(self.parts, t)].support;
  return s.footsteps.size() != 2 && s.side() != side;
}

static Affine3d frame_at(const Vector3d& p, double yaw)
{
  Affine3d T = Affine3d::Identity();
  T.translation() = p;
  T.linear() = AngleAxisd(yaw, Vector3d::UnitZ()).toRotationMatrix();
  return T;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_T_world_left(double)")
Affine3d tr_T_left(Tr& self, double t)
{
  Part& p = self.parts[part_at(self.parts, t)];
  if (self.is_flying(HR::Left, t))
    return self.T * frame_at(p.swing_trajectory.pos(t), self.left_foot_yaw.pos(t));
  return self.T * frame_at(p.support.footstep_frame(HR::Left).translation(), self.left_foot_yaw.pos(t));
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_T_world_right(double)")
Affine3d tr_T_right(Tr& self, double t)
{
  Part& p = self.parts[part_at(self.parts, t)];
  if (self.is_flying(HR::Right, t))
    return self.T * frame_at(p.swing_trajectory.pos(t), self.right_foot_yaw.pos(t));
  return self.T * frame_at(p.support.footstep_frame(HR::Right).translation(), self.right_foot_yaw.pos(t));
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_T_world_foot(HumanoidRobot::Side,double)")
Affine3d tr_T_foot(Tr& self, HR::Side side, double t)
{
  if (side == HR::Left)
    return self.get_T_world_left(t);
  return self.get_T_world_right(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_v_world_left(double)")
Vector3d tr_v_left(Tr& self, double t)
{
  Part& p = self.parts[part_at(self.parts, t)];
  if (self.is_flying(HR::Left, t))
    return self.T.linear() * p.swing_trajectory.vel(t);
  return Vector3d::Zero();
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_v_world_right(double)")
Vector3d tr_v_right(Tr& self, double t)
{
  Part& p = self.parts[part_at(self.parts, t)];
  if (self.is_flying(HR::Right, t))
    return self.T.linear() * p.swing_trajectory.vel(t);
  return Vector3d::Zero();
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_v_world_foot(HumanoidRobot::Side,double)")
Vector3d tr_v_foot(Tr& self, HR::Side side, double t)
{
  if (side == HR::Left)
    return self.get_v_world_left(t);
  return self.get_v_world_right(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_yaw_world_left(double)")
double tr_yaw_left(Tr& self, double t)
{
  return frame_yaw(self.T.rotation()) + self.left_foot_yaw.pos(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_yaw_world_right(double)")
double tr_yaw_right(Tr& self, double t)
{
  return frame_yaw(self.T.rotation()) + self.right_foot_yaw.pos(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_yaw_world_foot(HumanoidRobot::Side,double)")
double tr_yaw_foot(Tr& self, HR::Side side, double t)
{
  return side == HR::Left ? self.get_yaw_world_left(t) : self.get_yaw_world_right(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_yaw_world_trunk(double)")
double tr_yaw_trunk(Tr& self, double t)
{
  return frame_yaw(self.T.rotation()) + self.trunk_yaw.pos(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_p_world_CoM(double)")
Vector3d tr_p_com(Tr& self, double t)
{
  Vector2d p = self.parts[part_at(self.parts, t)].com_trajectory.pos(t);
  return self.T.linear() * Vector3d(p.x(), p.y(), self.com_target_z) + self.T.translation();
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_v_world_CoM(double)")
Vector3d tr_v_com(Tr& self, double t)
{
  Vector2d v = self.parts[part_at(self.parts, t)].com_trajectory.vel(t);
  return self.T.linear() * Vector3d(v.x(), v.y(), 0);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_a_world_CoM(double)")
Vector3d tr_a_com(Tr& self, double t)
{
  Vector2d a = self.parts[part_at(self.parts, t)].com_trajectory.acc(t);
  return self.T.linear() * Vector3d(a.x(), a.y(), 0);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_j_world_CoM(double)")
Vector3d tr_j_com(Tr& self, double t)
{
  Vector2d j = self.parts[part_at(self.parts, t)].com_trajectory.jerk(t);
  return self.T.linear() * Vector3d(j.x(), j.y(), 0);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_p_world_DCM(double,double)")
Vector2d tr_p_dcm(Tr& self, double t, double omega)
{
  Vector2d p = self.get_p_world_CoM(t).head(2), v = self.get_v_world_CoM(t).head(2);
  return p + v / omega;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_p_world_ZMP(double,double)")
Vector2d tr_p_zmp(Tr& self, double t, double omega)
{
  Vector2d p = self.get_p_world_CoM(t).head(2), a = self.get_a_world_CoM(t).head(2);
  return p - a / (omega * omega);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_R_world_trunk(double)")
Matrix3d tr_R_trunk(Tr& self, double t)
{
  Matrix3d yaw = AngleAxisd(self.trunk_yaw.pos(t), Vector3d::UnitZ()).toRotationMatrix();
  Matrix3d pitch = AngleAxisd(self.trunk_pitch, Vector3d::UnitY()).toRotationMatrix();
  Matrix3d roll = AngleAxisd(self.trunk_roll, Vector3d::UnitX()).toRotationMatrix();
  return self.T.linear() * yaw * pitch * roll;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_p_support_CoM(double)")
Vector3d tr_p_support_com(Tr& self, double t)
{
  Part& p = self.parts[part_at(self.parts, t)];
  Affine3d T_support_world = flatten_on_floor(self.get_T_world_foot(p.support.side(), t)).inverse();
  return T_support_world * self.get_p_world_CoM(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_v_support_CoM(double)")
Vector3d tr_v_support_com(Tr& self, double t)
{
  Part& p = self.parts[part_at(self.parts, t)];
  Affine3d T_support_world = flatten_on_floor(self.get_T_world_foot(p.support.side(), t)).inverse();
  return T_support_world.linear() * self.get_v_world_CoM(t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_p_support_DCM(double,double)")
Vector2d tr_p_support_dcm(Tr& self, double t, double omega)
{
  Vector2d p = self.get_p_support_CoM(t).head(2), v = self.get_v_support_CoM(t).head(2);
  return p + v / omega;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::support_side(double)")
HR::Side tr_support_side(Tr& self, double t)
{
  return self.parts[part_at(self.parts, t)].support.side();
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::support_is_both(double)")
bool tr_support_is_both(Tr& self, double t)
{
  return self.parts[part_at(self.parts, t)].support.footsteps.size() == 2;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::foot_yaw(HumanoidRobot::Side)")
CubicSpline& tr_foot_yaw(Tr& self, HR::Side side)
{
  if (side == HR::Left)
    return self.left_foot_yaw;
  return self.right_foot_yaw;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_support(double)")
Support tr_get_support(Tr& self, double t)
{
  return self.T * self.parts[part_at(self.parts, t)].support;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::remaining_supports(double)")
int tr_remaining(Tr& self, double t)
{
  return (int)self.parts.size() - 1 - part_at(self.parts, t);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_next_support(double,int)")
Support tr_next_support(Tr& self, double t, int n)
{
  require(n >= 0);
  int i = part_at(self.parts, t) + n;
  if (i >= (int)self.parts.size())
    return self.T * self.parts[self.parts.size() - 1].support;
  return self.T * self.parts[i].support;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_prev_support(double,int)")
Support tr_prev_support(Tr& self, double t, int n)
{
  require(n >= 0);
  int i = part_at(self.parts, t) - n;
  if (i < 0)
    return self.T * self.parts[0].support;
  return self.T * self.parts[i].support;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_supports()")
std::vector<Support> tr_get_supports(Tr& self)
{
  std::vector<Support> out;
  for (size_t i = 0; i < self.parts.size(); i++)
    out.push_back(self.T * self.parts[i].support);
  return out;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::apply_transform(Affine3d)")
void tr_apply_transform(Tr& self, Affine3d T)
{
  self.T = T * self.T;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_part_t_start(double)")
double tr_part_t_start(Tr& self, double t)
{
  return self.parts[part_at(self.parts, t)].t_start;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_part_t_end(double)")
double tr_part_t_end(Tr& self, double t)
{
  return self.parts[part_at(self.parts, t)].t_end;
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::get_part_end_dcm(double,double)")
Vector2d tr_part_end_dcm(Tr& self, double t, double omega)
{
  return self.get_p_world_DCM(self.parts[part_at(self.parts, t)].t_end, omega);
}

SPECS("P=H07;F=placo::humanoid::WalkPatternGenerator::Trajectory::add_supports(double,FootstepsPlanner::Support&)")
void tr_add_supports(Tr& self, double t, Support& support)
{
  for (size_t i = 0; i < support.footsteps.size(); i++)
  {
    double yaw = frame_yaw(support.footsteps[i].frame.rotation());
    if (support.footsteps[i].side == HR::Left)
      self.left_foot_yaw.add_point(t, yaw, 0);
    else
      self.right_foot_yaw.add_point(t, yaw, 0);
  }
}

// ------------------------------------------------------------------------------------------------ planning (H08)

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::WalkPatternGenerator(HumanoidRobot&,HumanoidParameters&)")
void wpg_ctor(WPG& self, HR& robot, HumanoidParameters& parameters)
{
  spec::bind(self.robot, robot);
  spec::bind(self.parameters, parameters);
  self.omega = LIPM::compute_omega(parameters.walk_com_height);
  self.omega_2 = self.omega * self.omega;
  self.soft = false;
  self.zmp_in_support_weight = 1e3;
  self.stop_end_support_weight = 1e3;
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::support_default_timesteps(FootstepsPlanner::Support&)")
int wpg_timesteps(WPG& self, Support& support)
{
  if (support.footsteps.size() != 2)
    return self.parameters.single_support_timesteps;
  if (support.start || support.end)
    return self.parameters.startend_double_support_timesteps();
  return self.parameters.double_support_timesteps();
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::support_default_duration(FootstepsPlanner::Support&)")
double wpg_duration(WPG& self, Support& support)
{
  if (support.footsteps.size() != 2)
    return self.parameters.single_support_duration;
  if (support.start || support.end)
    return self.parameters.startend_double_support_duration();
  return self.parameters.double_support_duration();
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::plan_dbl_support(WalkPatternGenerator::Trajectory&,int)")
void wpg_plan_dbl(WPG& self, Tr& trajectory, int i)
{
  Part& part = trajectory.parts[i];
  trajectory.add_supports(part.t_end, part.support);
  trajectory.trunk_yaw.add_point(part.t_end, frame_yaw(part.support.frame().rotation()), 0);
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::plan_sgl_support(WalkPatternGenerator::Trajectory&,int,WalkPatternGenerator::Trajectory*)")
void wpg_plan_sgl(WPG& self, Tr& trajectory, int i, Tr* old)
{
  Part& part = trajectory.parts[i];
  HR::Side flying = part.support.footsteps[0].side == HR::Left ? HR::Right : HR::Left;
  Affine3d T_end = trajectory.parts[i + 1].support.footstep_frame(flying);
  double duration = self.support_default_duration(part.support) * part.support.time_ratio;
  HumanoidParameters& P = self.parameters;
  if (i == 0 && old != nullptr)
  {
    // the swing continues the one of the previous trajectory
    part.swing_trajectory = SwingFootCubic::make_trajectory(
        part.t_start, duration, P.walk_foot_height, P.walk_foot_rise_ratio,
        old->get_T_world_foot(flying, trajectory.t_start).translation(), T_end.translation(), part.support.elapsed_ratio,
        old->get_v_world_foot(flying, trajectory.t_start));
    double yaw = old->get_yaw_world_foot(flying, trajectory.t_start);
    double vyaw = old->foot_yaw(flying).vel(trajectory.t_start);
    trajectory.foot_yaw(flying).add_point(trajectory.t_start, yaw, vyaw);
  }
  else
  {
    Vector3d start = trajectory.parts[i - 1].support.footstep_frame(flying).translation();
    part.swing_trajectory = SwingFootCubic::make_trajectory(part.t_start, duration, P.walk_foot_height,
                                                            P.walk_foot_rise_ratio, start, T_end.translation());
  }
  trajectory.foot_yaw(flying).add_point(part.t_end, frame_yaw(T_end.rotation()), 0);
  if (!P.has_double_support())
    trajectory.trunk_yaw.add_point(part.t_end, frame_yaw(T_end.rotation()), 0);
  trajectory.add_supports(part.t_end, part.support);
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::plan_feet_trajectories(WalkPatternGenerator::Trajectory&,WalkPatternGenerator::Trajectory*)")
void wpg_plan_feet(WPG& self, Tr& trajectory, Tr* old)
{
  trajectory.add_supports(trajectory.t_start, trajectory.parts[0].support);
  if (old == nullptr)
    trajectory.trunk_yaw.add_point(trajectory.t_start, frame_yaw(trajectory.parts[0].support.frame().rotation()), 0);
  else
    trajectory.trunk_yaw.add_point(trajectory.t_start, old->get_yaw_world_trunk(trajectory.t_start),
                                   old->trunk_yaw.vel(trajectory.t_start));
  for (int i = 0; i < (int)trajectory.parts.size(); i++)
  {
    if (trajectory.parts[i].support.footsteps.size() == 1)
      self.plan_sgl_support(trajectory, i, old);
    else
      self.plan_dbl_support(trajectory, i);
  }
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::constrain_lipm(problem::Problem&,LIPM&,FootstepsPlanner::Support&,double,HumanoidParameters&)")
void wpg_constrain(WPG& self, Problem& problem, LIPM& lipm, Support& support, double omega_2, HumanoidParameters& P)
{
  for (int k = 1; k <= lipm.timesteps; k++)
  {
    ProblemConstraint& in =
        problem.add_constraint(PolygonConstraint::in_polygon_xy(lipm.zmp(k, omega_2), support.support_polygon(), P.zmp_margin));
    if (self.soft)
      in.configure(ProblemConstraint::Soft, self.zmp_in_support_weight);
    Vector3d offset = Vector3d::Zero();
    if (support.footsteps.size() != 2)
    {
      offset.x() = P.foot_zmp_target_x;
      offset.y() = support.side() == HR::Left ? P.foot_zmp_target_y : -P.foot_zmp_target_y;
    }
    Vector2d target = (support.frame() * offset).head(2);
    problem.add_constraint(lipm.zmp(k, omega_2) == target).configure(ProblemConstraint::Soft, P.zmp_reference_weight);
    if (support.end && k == lipm.timesteps)
    {
      ProblemConstraint& p = problem.add_constraint(lipm.pos(k) == Vector2d(support.frame().translation().head(2)));
      ProblemConstraint& v = problem.add_constraint(lipm.vel(k) == Vector2d(0., 0.));
      ProblemConstraint& a = problem.add_constraint(lipm.acc(k) == Vector2d(0., 0.));
      if (self.soft)
      {
        p.configure(ProblemConstraint::Soft, self.stop_end_support_weight);
        v.configure(ProblemConstraint::Soft, self.stop_end_support_weight);
        a.configure(ProblemConstraint::Soft, self.stop_end_support_weight);
      }
    }
  }
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::plan_com(WalkPatternGenerator::Trajectory&,std::vector<FootstepsPlanner::Support>&,Vector2d,Vector2d,Vector2d)")
bool wpg_plan_com(WPG& self, Tr& trajectory, std::vector<Support>& supports, Vector2d p0, Vector2d v0, Vector2d a0)
{
  Problem problem;
  std::vector<LIPM> lipms;
  double t = trajectory.t_start;
  for (size_t i = 0; i < supports.size(); i++)
  {
    Support& support = supports[i];
    double duration = (1 - support.elapsed_ratio) * self.support_default_duration(support) * support.time_ratio;
    int steps = std::max(1, (int)((1 - support.elapsed_ratio) * self.support_default_timesteps(support)));
    if (support.t_start == -1)
      support.t_start = t;
    Part part(support, t);
    part.t_end = t + duration;
    t = part.t_end;
    if (part.t_start == trajectory.t_start)
      lipms.push_back(LIPM(problem, duration / steps, steps, part.t_start, p0, v0, a0));
    else
      lipms.push_back(LIPM(problem, duration / steps, steps, part.t_start, lipms.back()));
    self.constrain_lipm(problem, lipms.back(), support, self.omega_2, self.parameters);
    trajectory.parts.push_back(part);
  }
  trajectory.t_end = t;
  try
  {
    problem.solve();
  }
  catch (const std::exception& e)
  {
    return false;
  }
  for (int i = 0; i < (int)trajectory.parts.size(); i++)
  {
    Part& part = trajectory.parts[i];
    part.com_trajectory = lipms[i].get_trajectory();
    part.support.target_world_dcm = part.com_trajectory.dcm(part.t_end, self.omega);
  }
  return true;
}

SPECS("P=H08;F=placo::humanoid::WalkPatternGenerator::plan(std::vector<FootstepsPlanner::Support>&,Vector3d,double)")
Tr wpg_plan(WPG& self, std::vector<Support>& supports, Vector3d com, double t_start)
{
  if (supports.size() == 0)
    throw std::runtime_error("no supports");
  Tr trajectory(self.parameters.walk_com_height, t_start, self.parameters.walk_trunk_pitch, 0.);
  if (!self.plan_com(trajectory, supports, com.head(2)))
    throw std::runtime_error("failed");
  self.plan_feet_trajectories(trajectory);
  return trajectory;
}

// ------------------------------------------------------------------------------------------------ replanning (H09)

SPECS("P=H09;F=placo::humanoid::WalkPatternGenerator::replan(std::vector<FootstepsPlanner::Support>&,WalkPatternGenerator::Trajectory&,double)")
Tr wpg_replan(WPG& self, std::vector<Support>& supports, Tr& old, double t)
{
  if (supports.size() == 0)
    throw std::runtime_error("no supports");
  Tr trajectory(self.parameters.walk_com_height, t, self.parameters.walk_trunk_pitch, 0.);
  Vector2d p = old.get_p_world_CoM(t).head(2);
  Vector2d v = old.get_v_world_CoM(t).head(2);
  Vector2d a = old.get_a_world_CoM(t).head(2);
  if (!self.plan_com(trajectory, supports, p, v, a))
    return self.trim_old_trajectory(old, t);
  self.plan_feet_trajectories(trajectory, &old);
  return trajectory;
}

SPECS("P=H09;F=placo::humanoid::WalkPatternGenerator::can_replan_supports(WalkPatternGenerator::Trajectory&,double)")
bool wpg_can_replan(WPG& self, Tr& trajectory, double t)
{
  Support s = trajectory.get_support(t);
  Support n = trajectory.get_next_support(t, 1);
  return !s.start && !s.end && !n.end && s.footsteps.size() != 2;
}

SPECS("P=H09;F=placo::humanoid::WalkPatternGenerator::replan_supports(FootstepsPlanner&,WalkPatternGenerator::Trajectory&,double,double)")
std::vector<Support> wpg_replan_supports(WPG& self, FP& planner, Tr& trajectory, double t, double t_last)
{
  if (!self.can_replan_supports(trajectory, t))
    throw std::runtime_error("can't replan");
  Support current = trajectory.get_support(t);
  Support next = trajectory.get_next_support(t, 1);
  HR::Side side = current.side();
  Affine3d T_left, T_right;
  if (side == HR::Left)
  {
    T_left = current.footstep_frame(HR::Left);
    T_right = next.footstep_frame(HR::Right);
  }
  if (side == HR::Right)
  {
    T_left = next.footstep_frame(HR::Left);
    T_right = current.footstep_frame(HR::Right);
  }
  auto footsteps = planner.plan(side, T_left, T_right);
  std::vector<Support> supports =
      FP::make_supports(footsteps, current.t_start, false, self.parameters.has_double_support(), true);
  double elapsed = t - std::max(t_last, current.t_start);
  supports[0].elapsed_ratio =
      current.elapsed_ratio + elapsed / (self.support_default_duration(current) * current.time_ratio);
  supports[0].time_ratio = current.time_ratio;
  return supports;
}

SPECS("P=H09;F=placo::humanoid::WalkPatternGenerator::update_supports(double,std::vector<FootstepsPlanner::Support>,Vector2d)")
std::vector<Support> wpg_update_supports(WPG& self, double t, std::vector<Support> supports, Vector2d dcm)
{
  Support current = supports[0];
  if (current.footsteps.size() == 2)
    throw std::runtime_error("double support");
  Problem problem;
  double omega = self.omega;
  double elapsed = t - current.t_start;
  Matrix2d R = current.frame().rotation().topLeftCorner(2, 2);
  Vector2d p = current.frame().translation().head(2);
  Variable& zmp = problem.add_variable(2);
  Variable& tau = problem.add_variable(1);
  Variable& offset = problem.add_variable(2);

  double T = self.support_default_duration(current);
  problem.add_constraint(tau.expr() == exp(omega * T)).configure(ProblemConstraint::Soft, 5);
  Expression world_zmp = p + R * zmp.expr();
  Vector2d target = supports[1].frame().translation().head(2);
  problem.add_constraint(world_zmp == target).configure(ProblemConstraint::Soft, 100);
  Vector2d target_offset = current.target_world_dcm - target;
  Expression world_offset = R * offset.expr();
  problem.add_constraint(world_offset == target_offset).configure(ProblemConstraint::Soft, 1000);

  problem.add_constraint(tau.expr() >= exp(omega * std::max(0.15, elapsed))).configure(ProblemConstraint::Hard);
  problem.add_constraint(tau.expr() <= exp(omega * std::max(3., elapsed))).configure(ProblemConstraint::Hard);
  std::vector<Vector2d> op = self.parameters.op_space_polygon;
  std::vector<Vector2d> off = self.parameters.dcm_offset_polygon;
  if (current.side() == HR::Right)
  {
    for (auto& q : off)
    {
      q.x() = -q.x();
      q.y() = -q.y();
    }
    problem.add_constraint(PolygonConstraint::in_polygon_xy(zmp.expr(), op)).configure(ProblemConstraint::Hard);
    problem.add_constraint(PolygonConstraint::in_polygon_xy(offset.expr(), off)).configure(ProblemConstraint::Soft, 1e6);
  }
  else
  {
    for (auto& q : op)
    {
      q.x() = -q.x();
      q.y() = -q.y();
    }
    problem.add_constraint(PolygonConstraint::in_polygon_xy(zmp.expr(), op)).configure(ProblemConstraint::Hard);
    problem.add_constraint(PolygonConstraint::in_polygon_xy(offset.expr(), off)).configure(ProblemConstraint::Soft, 1e6);
  }
  double duration = std::max(1e-5, T - elapsed);
  Vector2d virt = self.get_optimal_zmp(dcm, current.target_world_dcm, duration, current);
  problem
      .add_constraint(world_zmp + world_offset == (dcm - virt) * exp(-omega * elapsed) * tau.expr() + virt)
      .configure(ProblemConstraint::Hard);
  problem.solve();

  Vector2d next = p + R * zmp.value;
  supports[1].footsteps[0].frame.translation().x() = next.x();
  supports[1].footsteps[0].frame.translation().y() = next.y();
  supports[1].footsteps[0].computed_polygon = false;
  supports[1].computed_polygon = false;
  double remaining = std::max(1e-3, log(tau.value(0)) / omega - elapsed);
  supports[0].time_ratio = remaining / (self.support_default_duration(current) * (1 - current.elapsed_ratio));
  return supports;
}

SPECS("P=H09;F=placo::humanoid::WalkPatternGenerator::get_optimal_zmp(Vector2d,Vector2d,double,FootstepsPlanner::Support&)")
Vector2d wpg_optimal_zmp(WPG& self, Vector2d start, Vector2d end, double duration, Support& support)
{
  Problem problem;
  Variable& zmp = problem.add_variable(2);
  double e = exp(self.omega * duration);
  Vector2d target = (end - start * e) / (1 - e);
  problem.add_constraint(zmp.expr() == target).configure(ProblemConstraint::Soft, 1);
  problem.add_constraint(PolygonConstraint::in_polygon_xy(zmp.expr(), support.support_polygon(), self.parameters.zmp_margin))
      .configure(ProblemConstraint::Hard);
  problem.solve();
  return zmp.value;
}

SPECS("P=H09;F=placo::humanoid::WalkPatternGenerator::trim_old_trajectory(WalkPatternGenerator::Trajectory&,double)")
Tr wpg_trim(WPG& self, Tr& old, double t)
{
  Tr trajectory = old;
  trajectory.t_start = t;
  trajectory.replan_success = false;
  std::vector<Part> parts;
  for (size_t i = 0; i < old.parts.size(); i++)
  {
    Part part = old.parts[i];
    if (t >= part.t_start)
    {
      if (t < part.t_end)
      {
        part.t_start = t;
        double elapsed = t - std::max(old.t_start, part.support.t_start);
        part.support.elapsed_ratio += elapsed / (self.support_default_duration(part.support) * part.support.time_ratio);
        parts.push_back(part);
      }
    }
    else
      parts.push_back(part);
  }
  trajectory.parts = parts;
  return trajectory;
}

// ------------------------------------------------------------------------------------------------ walk tasks (H10)

SPECS("P=H10;F=placo::humanoid::WalkTasks::initialize_tasks(kinematics::KinematicsSolver*,HumanoidRobot*)")
void wt_init(WalkTasks& self, KinematicsSolver* solver, HR* robot)
{
  self.robot = robot;
  self.solver = solver;
  const char* priority = self.scaled ? "scaled" : "soft";
  self.left_foot_task = solver->add_frame_task("left_foot", robot->get_T_world_left());
  self.left_foot_task.configure("left_foot", priority, 1., 1.);
  self.right_foot_task = solver->add_frame_task("right_foot", robot->get_T_world_right());
  self.right_foot_task.configure("right_foot", priority, 1., 1.);
  self.trunk_orientation_task = &solver->add_orientation_task("trunk", robot->get_T_world_trunk().rotation());
  self.trunk_orientation_task->configure("trunk", priority, 1.);
  self.update_com_task();
}

SPECS("P=H10;F=placo::humanoid::WalkTasks::update_com_task()")
void wt_update_com(WalkTasks& self)
{
  const char* priority = self.scaled ? "scaled" : "soft";
  if (self.trunk_mode)
  {
    if (self.com_task != nullptr)
    {
      self.solver->remove_task(*self.com_task);
      self.com_task = nullptr;
    }
    if (self.trunk_task == nullptr)
    {
      self.trunk_task = &self.solver->add_position_task("trunk", self.robot->get_T_world_frame("trunk").translation());
      self.trunk_task->configure("trunk", priority, 1.);
    }
  }
  else
  {
    if (self.trunk_task != nullptr)
    {
      self.solver->remove_task(*self.trunk_task);
      self.trunk_task = nullptr;
    }
    if (self.com_task == nullptr)
    {
      self.com_task = &self.solver->add_com_task(self.robot->com_world());
      self.com_task->configure("com", priority, 1.);
    }
  }
}

SPECS("P=H10;F=placo::humanoid::WalkTasks::reach_initial_pose(Affine3d,double,double,double)")
void wt_reach(WalkTasks& self, Affine3d T_world_left, double feet_spacing, double com_height, double trunk_pitch)
{
  Affine3d T_world_right = T_world_left;
  T_world_right.translation() = T_world_left.translation() + T_world_left.rotation() * Vector3d(0, -feet_spacing, 0);
  Vector3d com = interpolate_frames(T_world_left, T_world_right, .5).translation();
  com.z() = com_height;
  double yaw = pinocchio::rpy::matrixToRpy(T_world_left.rotation()).z();
  Matrix3d R = pinocchio::rpy::rpyToMatrix(Vector3d(0, trunk_pitch, yaw));
  self.trunk_orientation_task->R_world_frame = R;
  self.update_tasks(T_world_left, T_world_right, com, R);
  for (int i = 0; i < 100; i++)
  {
    if (i <= 10)
      self.solver->robot.add_q_noise(0.01);
    self.robot->update_kinematics();
    self.solver->solve(true);
  }
}

SPECS("P=H10;F=placo::humanoid::WalkTasks::update_tasks(WalkPatternGenerator::Trajectory&,double)")
void wt_update(WalkTasks& self, Tr& trajectory, double t)
{
  self.update_tasks(trajectory.get_T_world_left(t), trajectory.get_T_world_right(t),
                    trajectory.get_p_world_CoM(t + self.com_delay), trajectory.get_R_world_trunk(t));
}

SPECS("P=H10;F=placo::humanoid::WalkTasks::update_tasks(Affine3d,Affine3d,Vector3d,Matrix3d)")
void wt_update4(WalkTasks& self, Affine3d left, Affine3d right, Vector3d com, Matrix3d R)
{
  self.update_com_task();
  Vector3d offset = self.robot->get_T_world_frame("trunk").linear() * Vector3d(self.com_x, self.com_y, 0);
  if (self.trunk_mode)
    self.trunk_task->target_world = com + offset;
  else
    self.com_task->target_world = com + offset;
  self.left_foot_task.set_T_world_frame(left);
  self.right_foot_task.set_T_world_frame(right);
  self.trunk_orientation_task->R_world_frame = R;
}

SPECS("P=H10;F=placo::humanoid::WalkTasks::remove_tasks()")
void wt_remove(WalkTasks& self)
{
  if (self.solver == nullptr)
    return;
  self.solver->remove_task(self.left_foot_task);
  self.solver->remove_task(self.right_foot_task);
  if (self.com_task != nullptr)
  {
    self.solver->remove_task(*self.com_task);
    self.com_task = nullptr;
  }
  if (self.trunk_task != nullptr)
  {
    self.solver->remove_task(*self.trunk_task);
    self.trunk_task = nullptr;
  }
  self.solver->remove_task(*self.trunk_orientation_task);
  self.solver = nullptr;
}

SPECS("P=H10;F=placo::humanoid::WalkTasks::update_tasks_and_pid(WalkPatternGenerator::Trajectory&,double,Vector2d,double,double)")
void wt_pid(WalkTasks& self, Tr& trajectory, double t, Vector2d dcm, double omega, double elapsed)
{
  Vector2d e = dcm - trajectory.get_p_world_DCM(t + self.com_delay, omega);
  self.integral = (1 - self.lambda) * self.integral + elapsed * e;
  Vector2d d = (e - self.last_error) / elapsed;
  self.last_error = e;
  Vector2d u = self.K_p * e + self.K_i * self.integral + self.K_d * d;
  self.update_tasks(trajectory.get_T_world_left(t), trajectory.get_T_world_right(t),
                    trajectory.get_p_world_CoM(t + self.com_delay) + Vector3d(u.x(), u.y(), 0.),
                    trajectory.get_R_world_trunk(t));
}

SPECS("P=H10;F=placo::humanoid::WalkTasks::get_tasks_error()")
std::map<std::string, Vector3d> wt_errors(WalkTasks& self)
{
  std::map<std::string, Vector3d> out;
  out["left_foot_orientation"] = self.left_foot_task.orientation->error();
  out["right_foot_orientation"] = self.right_foot_task.orientation->error();
  out["left_foot_position"] = self.left_foot_task.position->error();
  out["right_foot_position"] = self.right_foot_task.position->error();
  out["trunk_orientation"] = self.trunk_orientation_task->error();
  if (self.trunk_mode)
    out["trunk_position"] = self.trunk_task->error();
  else
    out["com_position"] = self.com_task->error();
  return out;
}

// ------------------------------------------------------------------------------------------------ dummy walk (H11)

SPECS("P=H11;F=placo::humanoid::DummyWalk::translation(double,double,double) const")
Affine3d dw_translation(const DummyWalk& self, double x, double y, double z)
{
  Affine3d T = Affine3d::Identity();
  T.translation() = Vector3d(x, y, z);
  return T;
}

SPECS("P=H11;F=placo::humanoid::DummyWalk::next_step(double,double,double)")
void dw_next_step(DummyWalk& self, double dx, double dy, double dtheta)
{
  if (self.support_left)
    self.T_world_right = self.T_world_next;
  else
    self.T_world_left = self.T_world_next;
  self.support_left = !self.support_left;
  self.compute_next_support(dx, dy, dtheta);
}

SPECS("P=H11;F=placo::humanoid::DummyWalk::compute_next_support(double,double,double)")
void dw_compute(DummyWalk& self, double dx, double dy, double dtheta)
{
  self.dx = dx;
  self.dy = dy;
  self.dtheta = dtheta;
  self.footsteps_planner.configure(dx, dy, dtheta, 2);
  auto steps = self.footsteps_planner.plan(self.support_left ? HR::Right : HR::Left, self.T_world_left, self.T_world_right);
  self.T_world_next = steps[2].frame;
}

SPECS("P=H11;F=placo::humanoid::DummyWalk::update_T_world_support(Affine3d)")
void dw_update_support(DummyWalk& self, Affine3d T_world_support)
{
  Affine3d T = flatten_on_floor(T_world_support) * (self.support_left ? self.T_world_left : self.T_world_right).inverse();
  self.T_world_left = flatten_on_floor(T * self.T_world_left);
  self.T_world_right = flatten_on_floor(T * self.T_world_right);
  self.T_world_next = flatten_on_floor(T * self.T_world_next);
  if (self.support_left)
    self.robot.set_T_world_frame("left_foot", self.T_world_left);
  else
    self.robot.set_T_world_frame("right_foot", self.T_world_right);
  self.robot.update_kinematics();
}

SPECS("P=H11;F=placo::humanoid::DummyWalk::solve()")
void dw_solve(DummyWalk& self)
{
  for (int k = 0; k < 4; k++)
  {
    self.robot.add_q_noise(1e-3);
    self.robot.update_kinematics();
    self.solver.solve(true);
  }
}

SPECS("P=H11;F=placo::humanoid::DummyWalk::update(double)")
void dw_update(DummyWalk& self, double t)
{
  Affine3d left = self.T_world_left, right = self.T_world_right;
  if (self.support_left)
  {
    right = interpolate_frames(self.T_world_right, self.T_world_next, t);
    right.translation().z() = self.lift_spline.pos(t);
  }
  else
  {
    left = interpolate_frames(self.T_world_left, self.T_world_next, t);
    left.translation().z() = self.lift_spline.pos(t);
  }
  Affine3d mid = interpolate_frames(flatten_on_floor(left), flatten_on_floor(right), 0.5);
  Affine3d trunk = mid * self.translation(self.trunk_x_offset, 0, self.parameters.walk_com_height) *
                   AngleAxisd(self.parameters.walk_trunk_pitch, Vector3d::UnitY());
  self.left_foot_task.set_T_world_frame(left);
  self.right_foot_task.set_T_world_frame(right);
  self.trunk_task.set_T_world_frame(trunk);
  self.solve();
}

SPECS("P=H11;F=placo::humanoid::DummyWalk::reset(bool)")
void dw_reset(DummyWalk& self, bool support_left)
{
  double h = self.parameters.walk_foot_height, r = self.parameters.walk_foot_rise_ratio;
  self.lift_spline.clear();
  self.lift_spline.add_point(0, 0, 0);
  self.lift_spline.add_point(0.5 - r / 2, h, 0);
  self.lift_spline.add_point(0.5 + r / 2, h, 0);
  self.lift_spline.add_point(1, 0, 0);
  self.robot.reset();
  self.robot.update_kinematics();
  self.support_left = support_left;
  self.T_world_left = self.translation(0, self.parameters.feet_spacing / 2, 0);
  self.T_world_right = self.translation(0, -self.parameters.feet_spacing / 2, 0);
  self.compute_next_support(0.0, 0.0, 0.0);
  self.update(0.0);
}

SPECS("P=H11;F=placo::humanoid::DummyWalk::DummyWalk(model::RobotWrapper&,humanoid::HumanoidParameters&)")
void dw_ctor(DummyWalk& self, RobotWrapper& robot, HumanoidParameters& parameters)
{
  spec::bind(self.robot, robot);
  spec::bind(self.parameters, parameters);
  spec::init(self.solver, KinematicsSolver(robot));
  spec::init(self.footsteps_planner, FootstepsPlannerRepetitive(parameters));
  self.trunk_x_offset = 0.05;
  self.dx = 0;
  self.dy = 0;
  self.dtheta = 0;
  self.solver.enable_velocity_limits(true);
  self.solver.dt = 0.1;
  self.left_foot_task = self.solver.add_frame_task("left_foot", Affine3d::Identity());
  self.left_foot_task.configure("left_foot", "soft", 1.0, 1.0);
  self.right_foot_task = self.solver.add_frame_task("right_foot", Affine3d::Identity());
  self.right_foot_task.configure("right_foot", "soft", 1.0, 1.0);
  self.trunk_task = self.solver.add_frame_task("trunk", Affine3d::Identity());
  self.trunk_task.configure("trunk", "soft", 1.0, 1.0);
  self.reset(false);
}
}  // namespace spec
