// UNITS: problem_expr problem tools humanoid_a humanoid_b
#include "spec.h"
#include <stdexcept>
#include <algorithm>
#include "placo/humanoid/footsteps_planner.h"
#include "placo/humanoid/footsteps_planner_naive.h"
#include "placo/humanoid/footsteps_planner_repetitive.h"
#include "placo/humanoid/humanoid_parameters.h"
#include "placo/humanoid/humanoid_robot.h"
#include "placo/humanoid/lipm.h"
#include "placo/humanoid/swing_foot.h"
#include "placo/humanoid/swing_foot_cubic.h"
#include "placo/humanoid/swing_foot_quintic.h"
#include "placo/humanoid/kick.h"
#include "placo/tools/utils.h"

using namespace placo::humanoid;
using placo::model::RobotWrapper;
using placo::problem::Expression;
using placo::problem::Integrator;
using placo::problem::Problem;
using Eigen::Affine3d;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;

namespace spec
{
typedef HumanoidParameters HP;
typedef HumanoidRobot HR;
typedef FootstepsPlanner FP;
typedef FootstepsPlanner::Footstep Footstep;
typedef FootstepsPlanner::Support Support;
typedef std::vector<Vector2d> Polygon;
typedef pinocchio::FrameIndex FI;

// ------------------------------------------------------------------------------------------------ parameters (H10)

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::dt()")
double hp_dt(HP& self)
{
  return self.single_support_duration / self.single_support_timesteps;
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::double_support_timesteps()")
int hp_double_support_timesteps(HP& self)
{
  return std::round(self.double_support_ratio * self.single_support_timesteps);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::startend_double_support_timesteps()")
int hp_startend_double_support_timesteps(HP& self)
{
  return std::round(self.startend_double_support_ratio * self.single_support_timesteps);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::double_support_duration()")
double hp_double_support_duration(HP& self)
{
  int steps = std::round(self.double_support_ratio * self.single_support_timesteps);
  return steps * (self.single_support_duration / self.single_support_timesteps);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::startend_double_support_duration()")
double hp_startend_double_support_duration(HP& self)
{
  int steps = std::round(self.startend_double_support_ratio * self.single_support_timesteps);
  return steps * (self.single_support_duration / self.single_support_timesteps);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::has_double_support()")
bool hp_has_double_support(HP& self)
{
  int steps = std::round(self.double_support_ratio * self.single_support_timesteps);
  return steps > 0;
}

// scaled down, keeping its direction, so that its size relative to the maximum steps is at most one
static Vector3d clip_to(HP& self, const Vector3d& step, int norm)
{
  double max_x = step.x() >= 0 ? self.walk_max_dx_forward : self.walk_max_dx_backward;
  double rx = step.x() / max_x;
  double ry = step.y() / self.walk_max_dy;
  double rt = step.z() / self.walk_max_dtheta;
  double size = 0;
  if (norm == 0)
  {
    size = std::sqrt(rx * rx + ry * ry + rt * rt);
  }
  else if (norm == 1)
  {
    size = std::fabs(rx) + std::fabs(ry) + std::fabs(rt);
  }
  else
  {
    size = std::sqrt(rx * rx + ry * ry) + std::fabs(rt);
  }
  Vector3d ratio(rx, ry, rt);
  if (size > 1)
  {
    ratio = ratio / size;
  }
  return Vector3d(ratio.x() * max_x, ratio.y() * self.walk_max_dy, ratio.z() * self.walk_max_dtheta);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::ellipsoid_clip(Matrix<3,1>)")
Vector3d hp_ellipsoid_clip(HP& self, Vector3d step)
{
  return clip_to(self, step, 0);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::box_clip(Matrix<3,1>)")
Vector3d hp_box_clip(HP& self, Vector3d step)
{
  return clip_to(self, step, 1);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::conic_clip(Matrix<3,1>)")
Vector3d hp_conic_clip(HP& self, Vector3d step)
{
  return clip_to(self, step, 2);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::ellipsoid_overlap_clip(placo::humanoid::HumanoidRobot::Side,Matrix<3,1>)")
Vector3d hp_ellipsoid_overlap_clip(HP& self, HR::Side support_side, Vector3d step)
{
  return self.overlap_clip(support_side, step, HP::Ellipsoid);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::box_overlap_clip(placo::humanoid::HumanoidRobot::Side,Matrix<3,1>)")
Vector3d hp_box_overlap_clip(HP& self, HR::Side support_side, Vector3d step)
{
  return self.overlap_clip(support_side, step, HP::Box);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::conic_overlap_clip(placo::humanoid::HumanoidRobot::Side,Matrix<3,1>)")
Vector3d hp_conic_overlap_clip(HP& self, HR::Side support_side, Vector3d step)
{
  return self.overlap_clip(support_side, step, HP::Conic);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::overlap_clip(placo::humanoid::HumanoidRobot::Side,Matrix<3,1>,placo::humanoid::HumanoidParameters::FootstepClipping)")
Vector3d hp_overlap_clip(HP& self, HR::Side support_side, Vector3d step, HP::FootstepClipping clipping)
{
  // the first step a repetitive plan makes from the neutral posture, seen from the support
  FootstepsPlannerRepetitive planner(self);
  planner.configure(step.x(), step.y(), step.z(), 3);
  planner.footstep_clipping = clipping;
  Affine3d left = Affine3d::Identity();
  left.translation() = Vector3d(0, self.feet_spacing / 2, 0);
  Affine3d right = Affine3d::Identity();
  right.translation() = Vector3d(0, -self.feet_spacing / 2, 0);
  std::vector<Footstep> footsteps = planner.plan(HR::other_side(support_side), left, right);
  Affine3d T_support_target = footsteps[1].frame.inverse() * footsteps[2].frame;
  double neutral_y = support_side == HR::Left ? -self.feet_spacing : self.feet_spacing;
  Vector3d result;
  result.x() = T_support_target.translation().x();
  result.y() = T_support_target.translation().y() - neutral_y;
  result.z() = placo::tools::frame_yaw(T_support_target.rotation());
  return result;
}

static Affine3d beside(HP& self, HR::Side side, const Affine3d& T_world_foot, double spacing, double d_x, double d_y, double d_theta)
{
  // the right foot is at negative y of the left one
  double y = side == HR::Left ? -spacing : spacing;
  Affine3d T_foot_new = Affine3d::Identity();
  T_foot_new.translation() = Vector3d(d_x, y + d_y, 0);
  T_foot_new.linear() = Eigen::AngleAxisd(d_theta, Vector3d::UnitZ()).toRotationMatrix();
  return T_world_foot * T_foot_new;
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::opposite_frame(placo::humanoid::HumanoidRobot::Side,Transform,double,double,double)")
Affine3d hp_opposite_frame(HP& self, HR::Side side, Affine3d T_world_foot, double d_x, double d_y, double d_theta)
{
  return beside(self, side, T_world_foot, self.feet_spacing, d_x, d_y, d_theta);
}

SPECS("P=H01;F=placo::humanoid::HumanoidParameters::neutral_frame(placo::humanoid::HumanoidRobot::Side,Transform,double,double,double)")
Affine3d hp_neutral_frame(HP& self, HR::Side side, Affine3d T_world_foot, double d_x, double d_y, double d_theta)
{
  return beside(self, side, T_world_foot, self.feet_spacing / 2, d_x, d_y, d_theta);
}

// ------------------------------------------------------------------------------------- footsteps and supports (H02)

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Footstep::Footstep(double,double);ignore=side,frame")
void footstep_new(Footstep& self, double foot_width, double foot_length)
{
  self.foot_width = foot_width;
  self.foot_length = foot_length;
  self.computed_polygon = false;
}

// the four corners of the sole, grown by the margin, clockwise from the rear left one
static Polygon corners(Footstep& self, double margin)
{
  double x = self.foot_length / 2 + margin;
  double y = self.foot_width / 2 + margin;
  Polygon result;
  result.push_back((self.frame * Vector3d(-x, y, 0)).head(2));
  result.push_back((self.frame * Vector3d(x, y, 0)).head(2));
  result.push_back((self.frame * Vector3d(x, -y, 0)).head(2));
  result.push_back((self.frame * Vector3d(-x, -y, 0)).head(2));
  return result;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Footstep::compute_polygon(double)")
Polygon footstep_compute_polygon(Footstep& self, double margin)
{
  return corners(self, margin);
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Footstep::support_polygon()")
Polygon footstep_support_polygon(Footstep& self)
{
  if (!self.computed_polygon)
  {
    self.polygon = corners(self, 0.);
    self.computed_polygon = true;
  }
  return self.polygon;
}

// on the right of every edge of a clockwise polygon
static bool contains(const Polygon& polygon, const Vector2d& point)
{
  Vector2d from = polygon[polygon.size() - 1];
  for (const Vector2d& to : polygon)
  {
    Vector2d edge = to - from;
    Vector2d d = point - from;
    if (edge.y() * d.x() - edge.x() * d.y() < 0)
    {
      return false;
    }
    from = to;
  }
  return true;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Footstep::polygon_contains(std::vector<Matrix<2,1>>&,Matrix<2,1>)")
bool footstep_polygon_contains(Polygon& polygon, Vector2d point)
{
  require(polygon.size() > 0);
  return contains(polygon, point);
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Footstep::overlap(placo::humanoid::FootstepsPlanner::Footstep&,double)")
bool footstep_overlap(Footstep& self, Footstep& other, double margin)
{
  Polygon mine = self.compute_polygon(margin);
  Polygon theirs = other.compute_polygon(margin);
  for (const Vector2d& point : mine)
  {
    if (Footstep::polygon_contains(theirs, point))
    {
      return true;
    }
  }
  for (const Vector2d& point : theirs)
  {
    if (Footstep::polygon_contains(mine, point))
    {
      return true;
    }
  }
  return false;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Footstep::operator==(const placo::humanoid::FootstepsPlanner::Footstep&)")
bool footstep_equal(Footstep& self, const Footstep& other)
{
  if (self.side != other.side)
  {
    return false;
  }
  return self.frame.isApprox(other.frame);
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::Support()")
void support_new(Support& self)
{
  self.t_start = -1.;
  self.elapsed_ratio = 0.;
  self.time_ratio = 1.;
  self.target_world_dcm = Vector2d::Zero();
  self.start = false;
  self.end = false;
  self.computed_polygon = false;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::Support(std::vector<placo::humanoid::FootstepsPlanner::Footstep>)")
void support_new_footsteps(Support& self, std::vector<Footstep> footsteps)
{
  self.footsteps = footsteps;
  self.t_start = -1.;
  self.elapsed_ratio = 0.;
  self.time_ratio = 1.;
  self.target_world_dcm = Vector2d::Zero();
  self.start = false;
  self.end = false;
  self.computed_polygon = false;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::frame()")
Affine3d support_frame(Support& self)
{
  require(self.footsteps.size() > 0);
  Affine3d mean = self.footsteps[0].frame;
  for (int k = 1; k < (int)self.footsteps.size(); k++)
  {
    mean = placo::tools::interpolate_frames(mean, self.footsteps[k].frame, 1. / (k + 1));
  }
  return mean;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::footstep_frame(placo::humanoid::HumanoidRobot::Side)")
Affine3d support_footstep_frame(Support& self, HR::Side side)
{
  for (const Footstep& footstep : self.footsteps)
  {
    if (footstep.side == side)
    {
      return footstep.frame;
    }
  }
  throw std::logic_error("no such foot");
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::apply_offset(Matrix<2,1>)")
void support_apply_offset(Support& self, Vector2d offset)
{
  for (Footstep& footstep : self.footsteps)
  {
    footstep.frame.translation() += Vector3d(offset.x(), offset.y(), 0);
    footstep.computed_polygon = false;
  }
  self.computed_polygon = false;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::side()")
HR::Side support_side(Support& self)
{
  require(self.footsteps.size() > 0);
  if (self.footsteps.size() != 1)
  {
    throw std::runtime_error("double support");
  }
  return self.footsteps[0].side;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::is_both()")
bool support_is_both(Support& self)
{
  return self.footsteps.size() == 2;
}

SPECS("P=H02;F=placo::humanoid::operator*(Transform,const placo::humanoid::FootstepsPlanner::Support&)")
Support support_transformed(Affine3d T, const Support& support)
{
  Support result = support;
  for (int k = 0; k < (int)result.footsteps.size(); k++)
  {
    result.footsteps[k].frame = T * support.footsteps[k].frame;
    result.footsteps[k].computed_polygon = false;
  }
  result.computed_polygon = false;
  return result;
}

SPECS("P=H02;F=placo::humanoid::FootstepsPlanner::Support::operator==(const placo::humanoid::FootstepsPlanner::Support&)")
bool support_equal(Support& self, const Support& other)
{
  if (self.footsteps.size() != other.footsteps.size())
  {
    return false;
  }
  for (int k = 0; k < (int)self.footsteps.size(); k++)
  {
    if (!(self.footsteps[k] == other.footsteps[k]))
    {
      return false;
    }
  }
  return true;
}

// ------------------------------------------------------------------------------------------------- planning (H03)

SPECS("P=H03;F=placo::humanoid::FootstepsPlanner::make_supports(std::vector<placo::humanoid::FootstepsPlanner::Footstep>,double,bool,bool,bool)")
std::vector<Support> make_supports(std::vector<Footstep> footsteps, double t_start, bool start, bool middle, bool end)
{
  int n = footsteps.size();
  require(n >= 2);
  std::vector<Support> supports;
  if (n > 2)
  {
    if (start)
    {
      Support both({ footsteps[0], footsteps[1] });
      both.start = true;
      both.t_start = t_start;
      supports.push_back(both);
    }
    else
    {
      Support first({ footsteps[0] });
      first.t_start = t_start;
      supports.push_back(first);
      if (middle)
      {
        Support both({ footsteps[0], footsteps[1] });
        both.t_start = t_start;
        supports.push_back(both);
      }
    }
    for (int k = 1; k < n - 1; k++)
    {
      supports.push_back(Support({ footsteps[k] }));
      if (middle && k < n - 2)
      {
        supports.push_back(Support({ footsteps[k], footsteps[k + 1] }));
      }
    }
  }
  if (end)
  {
    Support last({ footsteps[n - 2], footsteps[n - 1] });
    last.end = true;
    supports.push_back(last);
  }
  return supports;
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlanner::create_footstep(placo::humanoid::HumanoidRobot::Side,Transform)")
Footstep create_footstep(FP& self, HR::Side side, Affine3d T_world_foot)
{
  Footstep footstep(self.parameters.foot_width, self.parameters.foot_length);
  footstep.side = side;
  footstep.frame = T_world_foot;
  return footstep;
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlanner::opposite_footstep(placo::humanoid::FootstepsPlanner::Footstep,double,double,double)")
Footstep opposite_footstep(FP& self, Footstep footstep, double d_x, double d_y, double d_theta)
{
  Footstep result = footstep;
  result.side = footstep.side == HR::Left ? HR::Right : HR::Left;
  result.frame = self.parameters.opposite_frame(footstep.side, footstep.frame, d_x, d_y, d_theta);
  result.computed_polygon = false;
  return result;
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlanner::clipped_opposite_footstep(placo::humanoid::FootstepsPlanner::Footstep,double,double,double)")
Footstep clipped_opposite_footstep(FP& self, Footstep footstep, double d_x, double d_y, double d_theta)
{
  // turning spreads the feet
  double spread = self.parameters.walk_dtheta_spacing * std::fabs(d_theta);
  Vector3d step(d_x, footstep.side == HR::Left ? d_y - spread : d_y + spread, d_theta);
  if (self.footstep_clipping == HP::Conic)
  {
    step = self.parameters.conic_clip(step);
  }
  else if (self.footstep_clipping == HP::Ellipsoid)
  {
    step = self.parameters.ellipsoid_clip(step);
  }
  else if (self.footstep_clipping == HP::Box)
  {
    step = self.parameters.box_clip(step);
  }
  // shortened until the feet do not overlap
  for (int k = 0; k < 32; k++)
  {
    Footstep result = self.opposite_footstep(footstep, step.x(), step.y(), step.z());
    if (!result.overlap(footstep, 1e-2))
    {
      return result;
    }
    step = step * 0.9;
  }
  return self.opposite_footstep(footstep, step.x(), step.y(), step.z());
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlanner::plan(placo::humanoid::HumanoidRobot::Side,Transform,Transform)")
std::vector<Footstep> planner_plan(FP& self, HR::Side flying_side, Affine3d T_world_left, Affine3d T_world_right)
{
  std::vector<Footstep> footsteps;
  if (flying_side == HR::Left)
  {
    footsteps.push_back(self.create_footstep(HR::Left, T_world_left));
    footsteps.push_back(self.create_footstep(HR::Right, T_world_right));
  }
  else
  {
    footsteps.push_back(self.create_footstep(flying_side, T_world_right));
    footsteps.push_back(self.create_footstep(HR::Left, T_world_left));
  }
  self.plan_impl(footsteps, flying_side, T_world_left, T_world_right);
  return footsteps;
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlannerRepetitive::configure(double,double,double,int)")
void repetitive_configure(FootstepsPlannerRepetitive& self, double x, double y, double theta, int steps)
{
  self.d_x = x;
  self.d_y = y;
  self.d_theta = theta;
  self.nb_steps = steps;
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlannerRepetitive::plan_impl(std::vector<placo::humanoid::FootstepsPlanner::Footstep>&,placo::humanoid::HumanoidRobot::Side,Transform,Transform)")
void repetitive_plan(FootstepsPlannerRepetitive& self, std::vector<Footstep>& footsteps, HR::Side flying_side,
                     Affine3d T_world_left, Affine3d T_world_right)
{
  require(footsteps.size() == 2);
  if (self.nb_steps <= 0)
  {
    return;
  }
  Footstep last = footsteps[1];
  for (int k = 1; k < self.nb_steps; k++)
  {
    last = self.clipped_opposite_footstep(last, self.d_x, self.d_y, self.d_theta);
    footsteps.push_back(last);
  }
  // the feet end side by side
  footsteps.push_back(self.clipped_opposite_footstep(last, 0., 0., 0.));
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlannerRepetitive::name()")
std::string repetitive_name(FootstepsPlannerRepetitive& self)
{
  return "repetitive";
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlannerNaive::name()")
std::string naive_name(FootstepsPlannerNaive& self)
{
  return "naive";
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlannerNaive::FootstepsPlannerNaive(placo::humanoid::HumanoidParameters&);only=accessibility_length,accessibility_width,accessibility_yaw,max_steps,place_threshold,footstep_clipping")
void naive_new(FootstepsPlannerNaive& self, HP& parameters)
{
  self.footstep_clipping = HP::Conic;
  self.max_steps = 100;
  self.place_threshold = 0.5;
  self.accessibility_length = parameters.walk_max_dx_forward;
  self.accessibility_width = parameters.walk_max_dy;
  self.accessibility_yaw = parameters.walk_max_dtheta;
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlannerNaive::configure(Transform,Transform)")
void naive_configure(FootstepsPlannerNaive& self, Affine3d T_world_left_target, Affine3d T_world_right_target)
{
  self.T_world_targetLeft = T_world_left_target;
  self.T_world_targetRight = T_world_right_target;
}

SPECS("P=H03;F=placo::humanoid::FootstepsPlannerNaive::plan_impl(std::vector<placo::humanoid::FootstepsPlanner::Footstep>&,placo::humanoid::HumanoidRobot::Side,Transform,Transform)")
void naive_plan(FootstepsPlannerNaive& self, std::vector<Footstep>& footsteps, HR::Side flying_side, Affine3d T_world_left,
                Affine3d T_world_right)
{
  spec::require(self.accessibility_length >= 0 && self.accessibility_width >= 0 && self.accessibility_yaw >= 0);
  Affine3d T_world_target = placo::tools::interpolate_frames(self.T_world_targetLeft, self.T_world_targetRight, 0.5);
  Affine3d left = T_world_left;
  Affine3d right = T_world_right;
  HR::Side support = HR::other_side(flying_side);
  bool left_arrived = false;
  bool right_arrived = false;
  for (int k = 0; !(left_arrived && right_arrived) && k < self.max_steps; k++)
  {
    bool on_left = support == HR::Left;
    Affine3d T_world_support = on_left ? left : right;
    double side = on_left ? -1. : 1.;
    Affine3d T_support_target = T_world_support.inverse() * (on_left ? self.T_world_targetRight : self.T_world_targetLeft);
    T_support_target.translation().z() = 0.;
    Vector3d idle(0., side * self.parameters.feet_spacing, 0.);
    Vector3d error = T_support_target.translation() - idle;
    bool arrived = true;
    double scale = 1.;
    if (error.x() > self.accessibility_length)
    {
      scale = std::min(scale, self.accessibility_length / error.x());
      arrived = false;
    }
    if (error.x() < -self.accessibility_length)
    {
      scale = std::min(scale, -self.accessibility_length / error.x());
      arrived = false;
    }
    if (error.y() > self.accessibility_width)
    {
      scale = std::min(scale, self.accessibility_width / error.y());
      arrived = false;
    }
    if (error.y() < -self.accessibility_width)
    {
      scale = std::min(scale, -self.accessibility_width / error.y());
      arrived = false;
    }
    double yaw;
    if (error.norm() > self.place_threshold)
    {
      // far away: walk towards the target
      Vector3d to_target = (T_world_support.inverse() * T_world_target).translation() - idle / 2.;
      yaw = std::atan2(to_target.y(), to_target.x());
    }
    else
    {
      yaw = placo::tools::frame_yaw(T_support_target.rotation());
    }
    if (yaw < -self.accessibility_yaw)
    {
      yaw = -self.accessibility_yaw;
      arrived = false;
    }
    if (yaw > self.accessibility_yaw)
    {
      yaw = self.accessibility_yaw;
      arrived = false;
    }
    Vector3d step = self.parameters.ellipsoid_clip(Vector3d(scale * error.x(), scale * error.y(), yaw));
    Affine3d T_support_new = Affine3d::Identity();
    T_support_new.translation() = idle + Vector3d(step.x(), step.y(), 0.);
    T_support_new.linear() = Eigen::AngleAxisd(step.z(), Vector3d::UnitZ()).toRotationMatrix();
    Footstep footstep = self.create_footstep(HR::other_side(support), T_world_support * T_support_new);
    footsteps.push_back(footstep);
    if (on_left)
    {
      right_arrived = arrived;
      right = footstep.frame;
    }
    else
    {
      left_arrived = arrived;
      left = footstep.frame;
    }
    support = HR::other_side(support);
  }
}

// ------------------------------------------------------------------------------------------------------ LIPM (H04)

SPECS("P=H04;F=placo::humanoid::LIPM::Trajectory::pos(double)")
VectorXd lipmt_pos(LIPM::Trajectory& self, double t)
{
  return Vector2d(self.x.value(t, 0), self.y.value(t, 0));
}

SPECS("P=H04;F=placo::humanoid::LIPM::Trajectory::vel(double)")
VectorXd lipmt_vel(LIPM::Trajectory& self, double t)
{
  return Vector2d(self.x.value(t, 1), self.y.value(t, 1));
}

SPECS("P=H04;F=placo::humanoid::LIPM::Trajectory::acc(double)")
VectorXd lipmt_acc(LIPM::Trajectory& self, double t)
{
  return Vector2d(self.x.value(t, 2), self.y.value(t, 2));
}

SPECS("P=H04;F=placo::humanoid::LIPM::Trajectory::jerk(double)")
VectorXd lipmt_jerk(LIPM::Trajectory& self, double t)
{
  return Vector2d(self.x.value(t, 3), self.y.value(t, 3));
}

SPECS("P=H04;F=placo::humanoid::LIPM::Trajectory::dcm(double,double)")
VectorXd lipmt_dcm(LIPM::Trajectory& self, double t, double omega)
{
  return self.pos(t) + self.vel(t) / omega;
}

SPECS("P=H04;F=placo::humanoid::LIPM::Trajectory::zmp(double,double)")
VectorXd lipmt_zmp(LIPM::Trajectory& self, double t, double omega_2)
{
  return self.pos(t) - self.acc(t) / omega_2;
}

SPECS("P=H04;F=placo::humanoid::LIPM::Trajectory::dzmp(double,double)")
VectorXd lipmt_dzmp(LIPM::Trajectory& self, double t, double omega_2)
{
  return self.vel(t) - self.jerk(t) / omega_2;
}

SPECS("P=H04;F=placo::humanoid::LIPM::LIPM(placo::problem::Problem&,double,int,double,Matrix<2,1>,Matrix<2,1>,Matrix<2,1>)")
void lipm_new(LIPM& self, Problem& problem, double dt, int timesteps, double t_start, Vector2d initial_pos, Vector2d initial_vel,
              Vector2d initial_acc)
{
  self.dt = dt;
  self.timesteps = timesteps;
  self.t_start = t_start;
  self.x_var = &problem.add_variable(timesteps);
  self.y_var = &problem.add_variable(timesteps);
  self.x = Integrator(*self.x_var, VectorXd(Vector3d(initial_pos.x(), initial_vel.x(), initial_acc.x())), 3, dt);
  self.y = Integrator(*self.y_var, VectorXd(Vector3d(initial_pos.y(), initial_vel.y(), initial_acc.y())), 3, dt);
  self.x.t_start = t_start;
  self.y.t_start = t_start;
}

SPECS("P=H04;F=placo::humanoid::LIPM::LIPM(placo::problem::Problem&,double,int,double,placo::humanoid::LIPM&)")
void lipm_new_previous(LIPM& self, Problem& problem, double dt, int timesteps, double t_start, LIPM& previous)
{
  self.dt = dt;
  self.timesteps = timesteps;
  self.t_start = t_start;
  self.x_var = &problem.add_variable(timesteps);
  self.y_var = &problem.add_variable(timesteps);
  // starts where the previous one ends: position, velocity and acceleration at its last step
  self.x = Integrator(*self.x_var, previous.x.expr(-1), 3, dt);
  self.y = Integrator(*self.y_var, previous.y.expr(-1), 3, dt);
  self.x.t_start = t_start;
  self.y.t_start = t_start;
}

SPECS("P=H04;F=placo::humanoid::LIPM::build_LIPM_from_previous(placo::problem::Problem&,double,int,double,placo::humanoid::LIPM&)")
LIPM lipm_build(Problem& problem, double dt, int timesteps, double t_start, LIPM& previous)
{
  return LIPM(problem, dt, timesteps, t_start, previous);
}

SPECS("P=H04;F=placo::humanoid::LIPM::t_end()")
double lipm_t_end(LIPM& self)
{
  return self.t_start + self.timesteps * self.dt;
}

SPECS("P=H04;F=placo::humanoid::LIPM::pos(int)")
Expression lipm_pos(LIPM& self, int timestep)
{
  return self.x.expr(timestep, 0) / self.y.expr(timestep, 0);
}

SPECS("P=H04;F=placo::humanoid::LIPM::vel(int)")
Expression lipm_vel(LIPM& self, int timestep)
{
  return self.x.expr(timestep, 1) / self.y.expr(timestep, 1);
}

SPECS("P=H04;F=placo::humanoid::LIPM::acc(int)")
Expression lipm_acc(LIPM& self, int timestep)
{
  return self.x.expr(timestep, 2) / self.y.expr(timestep, 2);
}

SPECS("P=H04;F=placo::humanoid::LIPM::jerk(int)")
Expression lipm_jerk(LIPM& self, int timestep)
{
  return self.x.expr(timestep, 3) / self.y.expr(timestep, 3);
}

SPECS("P=H04;F=placo::humanoid::LIPM::dcm(int,double)")
Expression lipm_dcm(LIPM& self, int timestep, double omega)
{
  Expression x = self.x.expr(timestep, 0) + (1 / omega) * self.x.expr(timestep, 1);
  Expression y = self.y.expr(timestep, 0) + (1 / omega) * self.y.expr(timestep, 1);
  return x / y;
}

SPECS("P=H04;F=placo::humanoid::LIPM::zmp(int,double)")
Expression lipm_zmp(LIPM& self, int timestep, double omega_2)
{
  Expression x = self.x.expr(timestep, 0) - (1 / omega_2) * self.x.expr(timestep, 2);
  Expression y = self.y.expr(timestep, 0) - (1 / omega_2) * self.y.expr(timestep, 2);
  return x / y;
}

SPECS("P=H04;F=placo::humanoid::LIPM::dzmp(int,double)")
Expression lipm_dzmp(LIPM& self, int timestep, double omega_2)
{
  Expression x = self.x.expr(timestep, 1) - (1 / omega_2) * self.x.expr(timestep, 3);
  Expression y = self.y.expr(timestep, 1) - (1 / omega_2) * self.y.expr(timestep, 3);
  return x / y;
}

SPECS("P=H04;F=placo::humanoid::LIPM::compute_omega(double)")
double lipm_omega(double com_height)
{
  return std::sqrt(9.80665 / com_height);
}

SPECS("P=H04;F=placo::humanoid::LIPM::get_trajectory()")
LIPM::Trajectory lipm_trajectory(LIPM& self)
{
  LIPM::Trajectory trajectory;
  trajectory.x = self.x.get_trajectory();
  trajectory.y = self.y.get_trajectory();
  trajectory.x.t_start = self.x.t_start;
  trajectory.y.t_start = self.y.t_start;
  return trajectory;
}

// ------------------------------------------------------------------------------------------------ swing foot (H05)

SPECS("P=H05;F=placo::humanoid::SwingFoot::Trajectory::pos(double)")
Vector3d swing_pos(SwingFoot::Trajectory& self, double t)
{
  double s = t - self.t_start;
  return self.a * (s * s * s) + self.b * (s * s) + self.c * s + self.d;
}

SPECS("P=H05;F=placo::humanoid::SwingFoot::Trajectory::vel(double)")
Vector3d swing_vel(SwingFoot::Trajectory& self, double t)
{
  double s = t - self.t_start;
  return self.a * (3 * s * s) + self.b * (2 * s) + self.c;
}

// rows of the conditions on the coefficients (a, b, c, d) of a cubic
static void at_position(MatrixXd& A, int row, double s)
{
  A(row, 0) = s * s * s;
  A(row, 1) = s * s;
  A(row, 2) = s;
  A(row, 3) = 1;
}

static void at_velocity(MatrixXd& A, int row, double s)
{
  A(row, 0) = 3 * s * s;
  A(row, 1) = 2 * s;
  A(row, 2) = 1;
  A(row, 3) = 0;
}

SPECS("P=H05;F=placo::humanoid::SwingFoot::make_trajectory(double,double,double,Matrix<3,1>,Matrix<3,1>)")
SwingFoot::Trajectory swing_make(double t_start, double t_end, double height, Vector3d start, Vector3d target)
{
  double T = t_end - t_start;
  // horizontally: from start to target, at rest at both ends
  MatrixXd A(4, 4);
  at_position(A, 0, 0);
  at_position(A, 1, T);
  at_velocity(A, 2, 0);
  at_velocity(A, 3, T);
  VectorXd bx(4), by(4), bz(4);
  bx << start.x(), target.x(), 0, 0;
  by << start.y(), target.y(), 0, 0;
  VectorXd x = A.inverse() * bx;
  VectorXd y = A.inverse() * by;
  // vertically: at the height at one and three quarters
  MatrixXd B(4, 4);
  at_position(B, 0, 0);
  at_position(B, 1, T / 4);
  at_position(B, 2, 3 * T / 4);
  at_position(B, 3, T);
  bz << start.z(), height, height, target.z();
  VectorXd z = B.inverse() * bz;
  SwingFoot::Trajectory trajectory;
  trajectory.t_start = t_start;
  trajectory.t_end = t_end;
  trajectory.a = Vector3d(x(0), y(0), z(0));
  trajectory.b = Vector3d(x(1), y(1), z(1));
  trajectory.c = Vector3d(x(2), y(2), z(2));
  trajectory.d = Vector3d(x(3), y(3), z(3));
  return trajectory;
}

SPECS("P=H05;F=placo::humanoid::SwingFoot::remake_trajectory(placo::humanoid::SwingFoot::Trajectory&,double,Matrix<3,1>)")
SwingFoot::Trajectory swing_remake(SwingFoot::Trajectory& old_trajectory, double t, Vector3d target)
{
  // horizontally: position and velocity at t are kept, the target is reached at rest; vertically: unchanged
  double s = t - old_trajectory.t_start;
  double T = old_trajectory.t_end - old_trajectory.t_start;
  MatrixXd A(4, 4);
  at_position(A, 0, s);
  at_position(A, 1, T);
  at_velocity(A, 2, s);
  at_velocity(A, 3, T);
  VectorXd bx(4), by(4);
  Vector3d p = old_trajectory.pos(t);
  Vector3d v = old_trajectory.vel(t);
  bx << p.x(), target.x(), v.x(), 0;
  by << p.y(), target.y(), v.y(), 0;
  VectorXd x = A.inverse() * bx;
  VectorXd y = A.inverse() * by;
  SwingFoot::Trajectory trajectory;
  trajectory.t_start = old_trajectory.t_start;
  trajectory.t_end = old_trajectory.t_end;
  trajectory.a = Vector3d(x(0), y(0), old_trajectory.a.z());
  trajectory.b = Vector3d(x(1), y(1), old_trajectory.b.z());
  trajectory.c = Vector3d(x(2), y(2), old_trajectory.c.z());
  trajectory.d = Vector3d(x(3), y(3), old_trajectory.d.z());
  return trajectory;
}

SPECS("P=H05;F=placo::humanoid::SwingFootCubic::Trajectory::pos(double)")
Vector3d cubic_pos(SwingFootCubic::Trajectory& self, double t)
{
  return Vector3d(self.x.pos(t), self.y.pos(t), self.z.pos(t));
}

SPECS("P=H05;F=placo::humanoid::SwingFootCubic::Trajectory::vel(double)")
Vector3d cubic_vel(SwingFootCubic::Trajectory& self, double t)
{
  return Vector3d(self.x.vel(t), self.y.vel(t), self.z.vel(t));
}

SPECS("P=H05;F=placo::humanoid::SwingFootCubic::make_trajectory(double,double,double,double,Matrix<3,1>,Matrix<3,1>,double,Matrix<3,1>)")
SwingFootCubic::Trajectory cubic_make(double t_start, double virt_duration, double height, double rise_ratio, Vector3d start,
                                      Vector3d target, double elapsed_ratio, Vector3d start_vel)
{
  SwingFootCubic::Trajectory trajectory;
  double t_end = t_start + (1 - elapsed_ratio) * virt_duration;
  trajectory.t_start = t_start;
  trajectory.t_end = t_end;
  trajectory.virt_duration = virt_duration;
  trajectory.x.add_point(t_start, start.x(), start_vel.x());
  trajectory.y.add_point(t_start, start.y(), start_vel.y());
  trajectory.z.add_point(t_start, start.z(), start_vel.z());
  // the foot is up during the rise ratio around the middle of the whole step
  double t_middle = t_start - elapsed_ratio * virt_duration + virt_duration / 2;
  if (rise_ratio > 0)
  {
    double t_up = t_middle - rise_ratio * virt_duration / 2;
    double t_down = t_middle + rise_ratio * virt_duration / 2;
    if (t_up > t_start)
    {
      trajectory.z.add_point(t_up, height, 0);
    }
    if (t_down > t_start)
    {
      trajectory.z.add_point(t_down, height, 0);
    }
  }
  else if (t_middle > t_start)
  {
    trajectory.z.add_point(t_middle, height, 0);
  }
  trajectory.x.add_point(t_end, target.x(), 0);
  trajectory.y.add_point(t_end, target.y(), 0);
  trajectory.z.add_point(t_end, target.z(), 0);
  return trajectory;
}

SPECS("P=H05;F=placo::humanoid::SwingFootQuintic::Trajectory::pos(double)")
Vector3d quintic_pos(SwingFootQuintic::Trajectory& self, double t)
{
  return self.a * std::pow(t, 5) + self.b * std::pow(t, 4) + self.c * std::pow(t, 3) + self.d * std::pow(t, 2) + self.e * t + self.f;
}

SPECS("P=H05;F=placo::humanoid::SwingFootQuintic::Trajectory::vel(double)")
Vector3d quintic_vel(SwingFootQuintic::Trajectory& self, double t)
{
  return 5 * self.a * std::pow(t, 4) + 4 * self.b * std::pow(t, 3) + 3 * self.c * std::pow(t, 2) + 2 * self.d * t + self.e;
}

static void q_position(MatrixXd& A, int row, int axis, double t)
{
  for (int k = 0; k < 6; k++)
  {
    A(row, 6 * axis + k) = std::pow(t, 5 - k);
  }
}

static void q_velocity(MatrixXd& A, int row, int axis, double t)
{
  for (int k = 0; k < 5; k++)
  {
    A(row, 6 * axis + k) = (5 - k) * std::pow(t, 4 - k);
  }
}

static void q_acceleration(MatrixXd& A, int row, int axis, double t)
{
  for (int k = 0; k < 4; k++)
  {
    A(row, 6 * axis + k) = (5 - k) * (4 - k) * std::pow(t, 3 - k);
  }
}

SPECS("P=H05;F=placo::humanoid::SwingFootQuintic::make_trajectory(double,double,double,Matrix<3,1>,Matrix<3,1>);ignore=t_start,t_end")
SwingFootQuintic::Trajectory quintic_make(double t_start, double t_end, double height, Vector3d start, Vector3d target)
{
  MatrixXd A = MatrixXd::Zero(18, 18);
  VectorXd b = VectorXd::Zero(18);
  for (int axis = 0; axis < 3; axis++)
  {
    q_position(A, axis, axis, t_start);
    b(axis) = start(axis);
    q_position(A, 3 + axis, axis, t_end);
    b(3 + axis) = target(axis);
    q_velocity(A, 6 + axis, axis, t_start);
    q_velocity(A, 9 + axis, axis, t_end);
  }
  for (int axis = 0; axis < 2; axis++)
  {
    q_acceleration(A, 12 + axis, axis, t_start);
    q_acceleration(A, 14 + axis, axis, t_end);
  }
  q_position(A, 16, 2, t_start + (t_end - t_start) / 4);
  b(16) = height;
  q_position(A, 17, 2, t_start + 3 * (t_end - t_start) / 4);
  b(17) = height;
  VectorXd x = A.inverse() * b;
  SwingFootQuintic::Trajectory trajectory;
  trajectory.a = Vector3d(x(0), x(6), x(12));
  trajectory.b = Vector3d(x(1), x(7), x(13));
  trajectory.c = Vector3d(x(2), x(8), x(14));
  trajectory.d = Vector3d(x(3), x(9), x(15));
  trajectory.e = Vector3d(x(4), x(10), x(16));
  trajectory.f = Vector3d(x(5), x(11), x(17));
  return trajectory;
}

SPECS("P=H05;F=placo::humanoid::Kick::KickTrajectory::pos(double)")
Vector3d kick_pos(Kick::KickTrajectory& self, double t)
{
  return self.foot_trajectory.pos(t);
}

SPECS("P=H05;F=placo::humanoid::Kick::KickTrajectory::vel(double)")
Vector3d kick_vel(Kick::KickTrajectory& self, double t)
{
  return self.foot_trajectory.vel(t);
}

SPECS("P=H05;F=placo::humanoid::Kick::make_trajectory(placo::humanoid::HumanoidRobot::Side,double,double,Matrix<3,1>,Matrix<3,1>,Transform,placo::humanoid::HumanoidParameters&)")
Kick::KickTrajectory kick_make(HR::Side kicking_side, double t_start, double t_end, Vector3d start, Vector3d target,
                               Affine3d T_world_opposite, HP& parameters)
{
  Kick::KickTrajectory trajectory;
  trajectory.t_start = t_start;
  trajectory.t_end = t_end;
  return trajectory;
}

// --------------------------------------------------------------------------------------------- humanoid robot (H06)

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::init_config()")
void hr_init(HR& self)
{
  self.left_foot = self.get_frame_index("left_foot");
  self.right_foot = self.get_frame_index("right_foot");
  self.trunk = self.get_frame_index("trunk");
  self.support_is_both = false;
  self.support_side = HR::Left;
  self.support_frame = self.left_foot;
  self.T_world_support = Affine3d::Identity();
  self.ensure_on_floor();
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::initialize()")
void hr_initialize(HR& self)
{
  self.init_config();
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::string_to_side(const string&)")
HR::Side hr_string_to_side(const std::string& str)
{
  if (str == "right")
  {
    return HR::Right;
  }
  return HR::Left;
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::other_side(placo::humanoid::HumanoidRobot::Side)")
HR::Side hr_other_side(HR::Side side)
{
  if (side == HR::Left)
  {
    return HR::Right;
  }
  return HR::Left;
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::get_T_world_left()")
Affine3d hr_left(HR& self)
{
  return self.get_T_world_frame(self.left_foot);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::get_T_world_right()")
Affine3d hr_right(HR& self)
{
  return self.get_T_world_frame(self.right_foot);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::get_T_world_trunk()")
Affine3d hr_trunk(HR& self)
{
  return self.get_T_world_frame(self.trunk);
}

static void support_on(HR& self, HR::Side side, FI frame)
{
  if (frame == self.support_frame)
  {
    return;
  }
  self.support_side = side;
  self.support_frame = frame;
  self.T_world_support = placo::tools::flatten_on_floor(self.get_T_world_frame(frame));
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::update_support_side(placo::humanoid::HumanoidRobot::Side,unsigned long)")
void hr_update_support_frame(HR& self, HR::Side side, FI frame)
{
  support_on(self, side, frame);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::update_support_side(placo::humanoid::HumanoidRobot::Side)")
void hr_update_support_side(HR& self, HR::Side side)
{
  support_on(self, side, side == HR::Left ? self.left_foot : self.right_foot);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::update_support_side(const string&)")
void hr_update_support_name(HR& self, const std::string& side)
{
  support_on(self, side == "right" ? HR::Right : HR::Left, side == "right" ? self.right_foot : self.left_foot);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::update_support_side(const string&,const string&)")
void hr_update_support_names(HR& self, const std::string& side, const std::string& frame)
{
  FI index = self.get_frame_index(frame);
  support_on(self, side == "right" ? HR::Right : HR::Left, index);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::ensure_on_floor()")
void hr_ensure_on_floor(HR& self)
{
  self.update_kinematics();
  self.set_T_world_frame(self.support_frame, self.T_world_support);
  self.update_kinematics();
}

// the support keeps its position and turns so that the trunk has the given orientation
static void turn_about_support(HR& self, const Matrix3d& R_world_trunk)
{
  self.update_kinematics();
  self.T_world_support.linear() = R_world_trunk * self.get_T_a_b(self.trunk, self.support_frame).linear();
  self.set_T_world_frame(self.support_frame, self.T_world_support);
  self.update_kinematics();
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::ensure_on_floor_oriented(Matrix<3,3>)")
void hr_ensure_on_floor_oriented(HR& self, Matrix3d R_world_trunk)
{
  turn_about_support(self, R_world_trunk);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::update_from_imu(Matrix<3,3>)")
void hr_update_from_imu(HR& self, Matrix3d R_world_trunk)
{
  turn_about_support(self, R_world_trunk);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::get_com_velocity(placo::humanoid::HumanoidRobot::Side,Matrix<3,1>)")
Vector3d hr_com_velocity(HR& self, HR::Side support, Vector3d omega_b)
{
  // the base velocity for which the support does not move and the trunk turns with omega_b
  int n = self.model.nv - 6;
  MatrixXd Jc = self.frame_jacobian(self.support_frame, pinocchio::LOCAL);
  MatrixXd Jt = self.frame_jacobian("trunk", "local");
  MatrixXd J(6, Jc.cols());
  J.topRows(3) = Jc.topRows(3);
  J.bottomRows(3) = Jt.bottomRows(3);
  VectorXd target = VectorXd::Zero(6);
  target.tail(3) = omega_b;
  VectorXd qd_a = self.state.qd.tail(n);
  MatrixXd Ju = J.leftCols(6);
  MatrixXd Ja = J.rightCols(n);
  VectorXd qd_u = Ju.inverse() * (target - Ja * qd_a);
  MatrixXd C = self.com_jacobian();
  return C.leftCols(6) * qd_u + C.rightCols(n) * qd_a;
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::get_torques(Matrix<-1,1>,Matrix<-1,1>,bool)")
VectorXd hr_torques(HR& self, VectorXd acc_a, VectorXd contact_forces, bool use_non_linear_effects)
{
  int n = self.model.nv - 6;
  require(acc_a.size() == n);
  require(contact_forces.size() == 8);
  MatrixXd Jt = MatrixXd::Zero(self.model.nv, 8);
  for (int k = 0; k < 4; k++)
  {
    MatrixXd J = self.frame_jacobian("left_ps_" + std::to_string(k), "local");
    Jt.col(k) = J.row(2).transpose();
  }
  for (int k = 4; k < 8; k++)
  {
    MatrixXd J = self.frame_jacobian("right_ps_" + std::to_string(k - 4), "local");
    Jt.col(k) = J.row(2).transpose();
  }
  MatrixXd M = self.mass_matrix();
  VectorXd h;
  if (use_non_linear_effects)
  {
    h = self.non_linear_effects();
  }
  else
  {
    h = self.generalized_gravity();
  }
  VectorXd forces = Jt * contact_forces;
  // the base accelerates so that it carries no torque
  VectorXd acc(6 + n);
  acc.head(6) = M.block(0, 0, 6, 6).inverse() * (forces.head(6) - h.head(6) - M.block(0, 6, 6, n) * acc_a);
  acc.tail(n) = acc_a;
  return M * acc + h - forces;
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::dcm(double,Matrix<2,1>)")
Vector2d hr_dcm(HR& self, double omega, Vector2d com_velocity)
{
  return self.com_world().head(2) + com_velocity / omega;
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::zmp(double,Matrix<2,1>)")
Vector2d hr_zmp(HR& self, double omega, Vector2d com_acceleration)
{
  return self.com_world().head(2) - com_acceleration / (omega * omega);
}

SPECS("P=H06;F=placo::humanoid::HumanoidRobot::camera_look_at(double&,double&,const Matrix<3,1>&)")
bool hr_look_at(HR& self, double& pan, double& tilt, const Vector3d& P_world_target)
{
  Vector3d p = self.get_T_world_frame("head_base").inverse() * P_world_target;
  pan = std::atan2(p.y(), p.x());
  double forward = std::sqrt(p.x() * p.x() + p.y() * p.y());
  double up = p.z() - self.dist_z_pan_tilt;
  double ratio = self.dist_z_pan_camera / std::sqrt(forward * forward + up * up);
  if (ratio > 1 || ratio < -1)
  {
    return false;
  }
  tilt = M_PI / 2 - std::atan2(up, forward) - std::acos(ratio);
  return true;
}
}  // namespace spec
