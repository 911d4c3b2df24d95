"""Functions with a specification of their own: first compared as call boundaries, inlined on the second attempt."""

_T = "placo::tools::"
_H = "placo::humanoid::"
_W = _H + "WalkPatternGenerator::"

PURE = (
    [_T + "CubicSpline::" + n for n in ("pos", "vel", "acc")]
    + [_T + "CubicSpline3D::" + n for n in ("pos", "vel", "acc")]
    + [_W + "Trajectory::" + n for n in (
        "get_T_world_left", "get_T_world_right", "get_T_world_foot", "get_v_world_left", "get_v_world_right", "get_v_world_foot",
        "get_p_world_CoM", "get_v_world_CoM", "get_a_world_CoM", "get_j_world_CoM", "get_p_world_ZMP", "get_p_world_DCM",
        "get_p_support_CoM", "get_v_support_CoM", "get_p_support_DCM", "get_R_world_trunk", "get_yaw_world_trunk",
        "get_yaw_world_left", "get_yaw_world_right", "get_yaw_world_foot",
        "support_side", "support_is_both", "get_support", "get_next_support", "get_prev_support", "get_part_t_start",
        "get_part_end_dcm", "_findPart")]
    + [_H + "FootstepsPlanner::" + n for n in ("opposite_footstep", "clipped_opposite_footstep", "same_footsteps")]
    + [_H + "FootstepsPlanner::Support::support_polygon", _H + "FootstepsPlanner::Footstep::support_polygon",
       _H + "FootstepsPlanner::Footstep::overlap", _H + "FootstepsPlanner::Footstep::polygon_contains",
       _H + "FootstepsPlanner::in_polygon"]
    + [_H + "LIPM::" + n for n in ("pos", "vel", "acc", "jerk", "zmp", "dcm", "dzmp", "get_trajectory")]
    + [_H + "LIPM::Trajectory::" + n for n in ("pos", "vel", "acc", "jerk", "zmp", "dcm", "dzmp")]
    + [_H + "SwingFoot::make_trajectory", _H + "SwingFootCubic::make_trajectory", _H + "SwingFootQuintic::make_trajectory",
       _H + "SwingFoot::Trajectory::pos", _H + "SwingFoot::Trajectory::vel", _H + "SwingFootCubic::Trajectory::pos",
       _H + "SwingFootCubic::Trajectory::vel"]
    + ["placo::problem::Sparsity::operator+", "placo::problem::Sparsity::detect_columns_sparsity"]
)
MODULAR = {n: "pure" for n in PURE}
MODULAR["placo::model::RobotWrapper::update_kinematics"] = "effect"
for _n in ("plan_com", "plan_feet_trajectories", "plan_sgl_support", "plan_dbl_support", "constrain_lipm", "trim_old_trajectory"):
    MODULAR[_W + _n] = "effect"
for _n in ("placo::kinematics::KinematicsSolver::solve", "placo::model::RobotWrapper::add_q_noise", "placo::model::RobotWrapper::reset"):
    MODULAR[_n] = "effect"

# What these functions leave alone. Each fact follows from the function's own comparison with its reference (which compares everything
# the function may change): (this is unchanged, {argument: paths that may change}); ("i", k) is the element whose index is argument k.
_YAWS = [(("f", n),) for n in ("left_foot_yaw", "right_foot_yaw", "trunk_yaw")]
FRAME = {
    _W + "plan_sgl_support": (True, {0: _YAWS + [(("f", "parts"), ("i", 1), ("f", "swing_trajectory"))]}),
    _W + "plan_dbl_support": (True, {0: _YAWS}),
    _W + "plan_feet_trajectories": (True, None),
    _W + "plan_com": (True, None),
    _W + "constrain_lipm": (True, None),
}
