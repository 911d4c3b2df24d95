prop("A01", "Expression arithmetic is exact linear algebra",
     "Every arithmetic operation on optimisation expressions (sum, difference, negation, scaling by a number or a matrix, product, slicing, stacking, sum and mean of rows, conversion from numbers and vectors) yields the expression whose value, for any decision vector, is the same operation applied to the values of the operands. Sums of incompatible sizes and products of two non-constant expressions are rejected by an exception.",
     ["inputs"], "all operand expressions of any size, all numbers, vectors and matrices of matching size, all decision vectors",
     "Unit tests sample a few sizes and values; the algebra has to be right for each operand shape, including scalar broadcasting and expressions of different widths.",
     ["src/placo/problem/expression.cpp", "src/placo/problem/expression.h"],
     [("operator overloads on A, b", "src/placo/problem/expression.cpp"), ("row-count check before a sum", "src/placo/problem/expression.cpp")],
     observe=["Expression.value", "Expression.A", "Expression.b"])
prop("A02", "Comparisons build the constraint they read as",
     "Comparing expressions, vectors and numbers with <=, >= or == yields a constraint that is satisfied by exactly the decision vectors that satisfy the comparison; limits keep an expression between minus and plus the given bound; the polygon constraint keeps a point at the given margin inside every edge of a clockwise polygon. A new constraint is hard with weight one, and configuring it sets exactly the requested priority and weight.",
     ["inputs"], "all pairs of operands (expression, vector, number, either side), all bounds, polygons and margins, all priorities and weights",
     "Orientation errors only show for asymmetric data; tests use a handful of one-sided comparisons.",
     ["src/placo/problem/expression.cpp", "src/placo/problem/constraint.cpp", "src/placo/problem/problem.cpp", "src/placo/problem/polygon_constraint.cpp"],
     [("comparison operators", "src/placo/problem/expression.cpp"), ("configure", "src/placo/problem/constraint.cpp"), ("edge normals", "src/placo/problem/polygon_constraint.cpp")],
     observe=["ProblemConstraint.expression", "ProblemConstraint.type", "ProblemConstraint.priority"])
prop("A04", "Problem variables never overlap and are released once",
     "Each variable added to a problem gets its own contiguous range of the decision vector following all earlier ones, and its expression selects exactly the requested rows of that range. Added constraints are kept as independent copies, and clearing or destroying a problem releases each variable and constraint exactly once and resets the layout.",
     ["inputs", "histories"], "all sequences of adding variables and constraints, clearing and destroying, all sizes and row selections",
     "Tests create one or two variables; aliasing of ranges or double release needs longer histories and particular sizes.",
     ["src/placo/problem/problem.cpp", "src/placo/problem/variable.cpp"],
     [("k_start/k_end allocation", "src/placo/problem/problem.cpp"), ("expr", "src/placo/problem/variable.cpp")],
     state=[("n_variables", "length of the decision vector", "src/placo/problem/problem.h")])
prop("A03", "The quadratic program is exactly the problem that was posed",
     "Solving hands the quadratic-programming solver exactly the posed problem: hard equalities and hard inequalities as constraints, each soft constraint as a weighted squared residual (inequalities through a non-negative slack), plus the regularisation on the free variables. A constraint whose sizes do not fit the decision vector, or an infeasible or violated hard constraint, is reported by an exception and never by a silent result; on success each variable receives its own rows of the solution.",
     ["inputs", "configurations"], "all sets of hard and soft, equality and inequality constraints, all weights, sizes, regularisations and with or without equality rewriting or sparsity detection",
     "Tests solve small problems with one kind of constraint at a time; row offsets, slack bookkeeping and signs only matter in mixtures, and a wrong weight still yields a plausible solution.",
     ["src/placo/problem/problem.cpp"],
     [("assembly of P, q, A, b, G, h and the slacks", "src/placo/problem/problem.cpp"), ("feasibility tests after the solve", "src/placo/problem/problem.cpp")],
     observe=["Problem.solve", "Variable.value", "Problem.slacks"])
prop("A05", "Integrators and polynomials expose the exact trajectory",
     "For every order, step duration, initial state and decision vector, the expression an integrator gives for a step and derivative order equals the exact integration of the piecewise-constant input from the initial state, at step boundaries and between them; the trajectory read back after a solve is the value of those expressions. A polynomial in decision variables gives the value of the polynomial or its derivative at the given abscissa, and derivative orders out of range are rejected.",
     ["inputs"], "all chain matrices, orders, step counts, step durations, times and derivative orders, with or without an expression as initial state",
     "Tests check a few orders at a few steps; a wrong power or offset only shows for higher orders, mid-step times or particular steps.",
     ["src/placo/problem/integrator.cpp", "src/placo/problem/problem_polynom.cpp"],
     [("transition matrices", "src/placo/problem/integrator.cpp"), ("expr / expr_t", "src/placo/problem/integrator.cpp")],
     observe=["Integrator.expr", "Integrator.expr_t", "Integrator.value"])
prop("A07", "Sparsity detection never changes the solved problem",
     "The column intervals reported for a matrix cover exactly its non-zero columns as disjoint ordered intervals, combining two such patterns covers exactly the union, and assembling the objective with sparsity detection yields the same quadratic program as without it.",
     ["inputs"], "all matrices, all patterns of zero columns, all sums of patterns",
     "Only particular interleavings of intervals expose merge errors, and dropped objective terms still give a solution.",
     ["src/placo/problem/sparsity.cpp", "src/placo/problem/problem.cpp"],
     [("interval merge", "src/placo/problem/sparsity.cpp"), ("block-wise assembly", "src/placo/problem/problem.cpp")],
     observe=["Sparsity.intervals", "Problem.use_sparsity"])
prop("T01", "Splines interpolate their points and clamp outside",
     "A spline passes through every added point with the requested slope, is the cubic determined by its two neighbours in between, and its velocity and acceleration are the derivatives of that cubic; outside the covered time everything is taken at the nearest end. Points must be added in increasing time, angular splines take the short way round, three-dimensional splines do this per axis, and evaluating a polynomial or one of its derivatives gives its exact value.",
     ["inputs", "histories"], "all sequences of added points, clears and evaluations at any time, all polynomials and derivative orders",
     "Tests evaluate a few splines at a few times; boundaries, angular wrap and evaluation after adding points are not sampled.",
     ["src/placo/tools/cubic_spline.cpp", "src/placo/tools/cubic_spline_3d.cpp", "src/placo/tools/polynom.cpp"],
     [("fit, interpolation", "src/placo/tools/cubic_spline.cpp"), ("derivative coefficients", "src/placo/tools/polynom.cpp")],
     observe=["CubicSpline.pos/vel/acc/duration", "Polynom.value"])
prop("T02", "Frame and angle helpers return exact geometry",
     "Interpolating two frames moves the origin linearly and the orientation along the shortest rotation; wrapping an angle keeps it modulo a full turn within half a turn; flattening a frame keeps its yaw and horizontal position only; the rotation built from an axis maps that axis of the frame on the given vector; the optimal transformation is the proper rigid motion minimising squared distances. Direction sets are unit vectors spread over the circle or sphere.",
     ["inputs"], "all frames, rotations, angles, axis names, point clouds and counts",
     "A handful of frames cannot tell row from column, wrapped from clamped, or a reflection from a rotation.",
     ["src/placo/tools/utils.cpp", "src/placo/tools/directions.cpp"],
     [("frame helpers", "src/placo/tools/utils.cpp"), ("direction sets", "src/placo/tools/directions.cpp")],
     observe=["tools.*"])
prop("T03", "Segment predicates and intersections are exact",
     "Parallelism, alignment and membership of a point hold exactly when the stated geometric quantity is within the tolerance; segments intersect, and lines or half-lines pass through a segment, exactly when the intersection parameters lie in the required ranges; the intersection of two lines is the common point and parallel lines are rejected with an exception.",
     ["inputs"], "all pairs of segments, points and tolerances, degenerate and reversed ones included",
     "Tests use axis-aligned examples; sign and order mistakes show only for oblique or reversed segments.",
     ["src/placo/tools/segment.cpp"], [("get_lambdas and the predicates on them", "src/placo/tools/segment.cpp")],
     observe=["Segment.intersects", "Segment.lines_intersection"])
prop("T04", "Axis masks and priorities mean what their names say",
     "A mask selects exactly the rows of the named axes (in any letter case), rotated to the chosen frame, and leaves a fresh mask selecting all three axes in the task frame; unknown axis, frame or priority names are rejected with an exception. Configuring a task or constraint sets exactly the given name, priority and weight, and the reported priority name matches.",
     ["inputs", "configurations"], "all axis strings, frames, rotation matrices and matrices to mask, all priority names and weights",
     "Tests mask one or two axes; row order, repeated letters and the custom frame are not covered.",
     ["src/placo/tools/axises_mask.cpp", "src/placo/tools/prioritized.cpp"],
     [("set_axises / apply", "src/placo/tools/axises_mask.cpp"), ("configure", "src/placo/tools/prioritized.cpp")],
     observe=["AxisesMask.apply", "Prioritized.priority"])
RW = "src/placo/model/robot_wrapper.cpp"
prop("R01", "Names address exactly their own joint and frame",
     "Reading or writing the position, velocity or acceleration of a joint by name touches exactly the entry of that joint in the state and no other, and offsets and sizes reported for a name are those of that joint. Every joint or frame name that is not in the model is rejected with an exception; the listed names are those of the model in order, without the floating base unless asked for.",
     ["inputs"], "all models, all joint and frame names, known or unknown, all values",
     "Tests read and write a few joints of one robot; an off-by-one between position and velocity offsets or an unchecked name needs particular names.",
     [RW], [("name lookup", RW)], observe=["RobotWrapper.set_joint/get_joint", "RobotWrapper.joint_names"])
prop("R02", "Frames, centre of mass and jacobians match the state",
     "The pose of a frame, the pose of one frame in another, the centre of mass and all jacobians (frame, joint, relative position, centre of mass, and their time variations) are those of the current kinematics in the requested reference, by index or by name; unknown references are rejected. Placing the floating base or any frame moves the base so that exactly this frame ends at the requested pose, whatever the placement of the root joint.",
     ["inputs"], "all robot states, frames, references and target poses",
     "Tests compare few frames in few states, mostly with an identity root placement; a swapped reference or transposed rotation agrees in symmetric poses.",
     [RW], [("frame and jacobian accessors", RW), ("set_T_world_fbase", RW)], observe=["RobotWrapper.get_T_world_frame", "RobotWrapper.frame_jacobian"])
prop("R03", "Limits and physical parameters apply to their own joint",
     "Setting joint, velocity or torque limits, rotor inertia or gear ratio by name changes exactly the entries of the named joint, reading limits returns what was set, and setting the velocity limit for all joints changes every actuated joint and leaves the floating base alone. Gravity is the given vector and the total mass is the sum of all body masses.",
     ["inputs"], "all joint names, limits and parameters",
     "Position and velocity offsets differ by one because of the floating base quaternion; only particular joints show a mix-up.",
     [RW], [("limit setters", RW)], observe=["RobotWrapper.get_joint_limits", "RobotWrapper.model"])
prop("R04", "State reset, integration and kinematics refresh are complete",
     "Resetting yields the neutral configuration with zero velocity and acceleration; integrating over a time step updates velocity by the acceleration and then the configuration by the new velocity, with a missing velocity taken as zero. Updating the kinematics refreshes joint and frame placements, jacobians and their time variation from the current state, and noise is only added to limited joints beyond the floating base.",
     ["inputs", "histories"], "all states, time steps and sequences of state changes and updates",
     "A stale cache or a half-updated state only shows in particular call sequences.",
     [RW], [("update_kinematics", RW), ("integrate", RW)], observe=["RobotWrapper.state", "RobotWrapper.integrate"])
prop("R05", "Dynamics quantities satisfy the equations of motion",
     "The mass matrix is symmetric and includes the reflected rotor inertia of every joint; gravity, non-linear effects and the centroidal map are those of the current state. Static gravity compensation and the torques for a given acceleration with one fixed frame are the torques that, with the contact wrench on that frame, satisfy the equations of motion without any torque on the floating base.",
     ["inputs"], "all states, contact frames and actuated accelerations",
     "Plausible torques come out of wrong formulas; tests do not check them against the equations of motion.",
     [RW], [("mass_matrix", RW), ("torques_from_acceleration_with_fixed_frame", RW)], observe=["RobotWrapper.mass_matrix", "RobotWrapper.static_gravity_compensation_torques"])
prop("R06", "Collisions and distances report the configured pairs",
     "Loading collision pairs from a file replaces the previous pairs by exactly those listed, by geometry index or for every pair of geometries of two named bodies, ignores entries that are not pairs, and rejects unreadable files, unknown bodies and pairs that are neither indices nor names. Self collisions report exactly the colliding pairs (only the first if asked) and distances every pair, each with its own objects, parent joints, bodies, contact or closest points.",
     ["inputs", "configurations"], "all pair files, models and states",
     "Tests load one file; mixed up objects A and B or a dropped pair go unnoticed.",
     [RW], [("load_collision_pairs", RW), ("self_collisions, distances", RW)], observe=["RobotWrapper.self_collisions", "RobotWrapper.distances"])
KD = "src/placo/kinematics/"
KS = KD + "kinematics_solver.cpp"
prop("K01", "Pose and centre-of-mass tasks ask for exactly their target error",
     "Position, orientation, frame and centre-of-mass tasks ask the solver for the joint variation that, to first order, cancels the difference between target and current value: target minus position in the world, the rotation vector from current to target orientation, target minus centre of mass, each restricted to the masked axes. The error and error norm they report are that same masked difference, and reading or setting the target of a frame task reads or sets its two parts.",
     ["inputs", "configurations"], "all robot states, targets, frames and axis masks",
     "Tests converge from a few poses: a wrong frame of expression or a mask applied to one side only still converges for most targets.",
     [KD + "position_task.cpp", KD + "orientation_task.cpp", KD + "com_task.cpp", KD + "frame_task.cpp", KD + "task.cpp"],
     [("update of A and b", KD + "position_task.cpp"), ("update of A and b", KD + "orientation_task.cpp"), ("error", KD + "task.cpp")],
     observe=["Task.A", "Task.b", "Task.error()", "Task.error_norm()"])
prop("K02", "Two-frame tasks act on the pose of one frame in the other",
     "Relative position, relative orientation, relative frame and distance tasks ask for the joint variation that, to first order, cancels the difference between the target and the current pose or distance of the second frame seen from the first, whatever the motion of both frames. Reading or setting the target of a relative frame task reads or sets its two parts.",
     ["inputs", "configurations"], "all robot states, pairs of frames, targets and axis masks",
     "Tests use a fixed or slow first frame; missing terms due to its rotation vanish there.",
     [KD + "relative_position_task.cpp", KD + "relative_orientation_task.cpp", KD + "relative_frame_task.cpp", KD + "distance_task.cpp"],
     [("relative jacobian", KD + "relative_position_task.cpp"), ("update", KD + "distance_task.cpp")], observe=["Task.A", "Task.b"])
prop("K03", "Joint, axis, gear, wheel and regularisation tasks match their meaning",
     "Joint tasks drive exactly the named joints to their values; gear tasks keep each target joint at the ratio-weighted sum of its sources; axis tasks rotate the frame axis on the target axis along the shortest rotation, also when both are opposite or equal; wheel tasks cancel the slip and keep the contact on the surface, omnidirectional ones leaving the lateral direction free. Centroidal momentum, regularisation, kinetic energy and manipulability tasks contribute exactly their weighted quantity, and joint and gear settings are replaced or accumulated as named.",
     ["inputs", "configurations", "histories"], "all robot states, joint names, ratios, axes, wheel poses and sequences of settings",
     "Tests cover one gear, one wheel and generic axes; several sources, opposite axes and re-settings are not sampled.",
     [KD + "joints_task.cpp", KD + "gear_task.cpp", KD + "axis_align_task.cpp", KD + "wheel_task.cpp", KD + "centroidal_momentum_task.cpp", KD + "regularization_task.cpp", KD + "kinetic_energy_regularization_task.cpp", KD + "manipulability_task.cpp"],
     [("update", KD + "gear_task.cpp"), ("update", KD + "axis_align_task.cpp"), ("update", KD + "wheel_task.cpp")],
     observe=["Task.A", "Task.b"])
prop("K04", "Inverse kinematics respects limits, masks and priorities",
     "A solve poses exactly the registered tasks as equalities with their priority and weight (scaled tasks sharing one scale between zero and one), all registered constraints, and no motion of the masked joints or masked floating base. When enabled, joint limits keep every actuated joint within its limits after the step, and velocity limits bound every actuated step by limit times time step; applying the result integrates exactly the solution, and velocity limits without a time step are rejected.",
     ["inputs", "configurations", "histories"], "all sets of tasks, constraints, masks, limits, states and time steps",
     "Tests enable one option at a time on one robot; interactions of masks, limits and priorities, and joints outside their limits, are not sampled.",
     [KS], [("solve", KS), ("compute_limits_inequalities", KS)],
     state=[("masked_dof", "degrees of freedom that may not move", KD + "kinematics_solver.h")],
     observe=["KinematicsSolver.solve", "RobotWrapper.state.q"])
prop("K05", "Kinematics constraints keep the robot in the stated region",
     "To first order in the joint variation: the centre of mass stays inside the polygon by the margin, the distance between two frames stays below its maximum, the axis stays in the cone, the yaw between its bounds, joints inside the half-spaces, and every close pair of bodies keeps the self-collision margin. Pairs or cases far from the boundary add no constraint, and hard or soft priority and weight are those of the constraint.",
     ["inputs", "configurations"], "all robot states, frames, polygons, margins, angles, half-spaces and sets of close pairs",
     "A wrong sign or frame leaves the constraint satisfied in most sampled states.",
     [KD + "com_polygon_constraint.cpp", KD + "distance_constraint.cpp", KD + "cone_constraint.cpp", KD + "yaw_constraint.cpp", KD + "joint_space_half_spaces_constraint.cpp", KD + "avoid_self_collisions_constraint.cpp"],
     [("add_constraint", KD + "avoid_self_collisions_constraint.cpp"), ("add_constraint", KD + "cone_constraint.cpp"), ("add_constraint", KD + "com_polygon_constraint.cpp")],
     observe=["KinematicsSolver.solve", "Problem.add_constraint"])
prop("K06", "Tasks and constraints are registered, owned and removed once",
     "Every task or constraint created through the kinematics solver is registered once with that solver, holds exactly the given frames, targets and parameters (also when frames are given by name), and is released by the solver exactly once, on removal, clear or destruction; those added by the caller stay the caller's. Removing a task or constraint removes exactly that one (both parts for frame tasks) and leaves the others in place.",
     ["histories", "inputs"], "all sequences of adding, removing and clearing tasks and constraints, all parameters",
     "Tests add a few tasks and rarely remove them; double release or swapped arguments need particular sequences.",
     [KS], [("add_task, remove_task, clear", KS)], state=[("tasks", "registered tasks", KD + "kinematics_solver.h")],
     observe=["KinematicsSolver.tasks_count", "KinematicsSolver.add_*"])
DD = "src/placo/dynamics/"
DS = DD + "dynamics_solver.cpp"
prop("D01", "Dynamics tasks ask for the stated acceleration law",
     "Every dynamics task (position, orientation, frame, their relative forms, centre of mass, joints, gear) asks for the joint accelerations that give its quantity the target acceleration plus the proportional and damping corrections of its position and velocity error, bias acceleration of the current motion included, on the masked axes only. Torque tasks ask for exactly the set torque law of the named joints; the damping defaults to the critical one, and reading, setting or resetting targets concerns exactly the named part.",
     ["inputs", "configurations", "histories"], "all robot states and velocities, targets, gains, masks, joint names and sequences of settings",
     "Bias and velocity terms vanish at rest, where tests look; frame and sign mistakes are compensated by feedback in most simulations.",
     [DD + "position_task.cpp", DD + "orientation_task.cpp", DD + "relative_position_task.cpp", DD + "relative_orientation_task.cpp", DD + "com_task.cpp", DD + "joints_task.cpp", DD + "gear_task.cpp", DD + "torque_task.cpp", DD + "frame_task.cpp", DD + "relative_frame_task.cpp", DD + "task.cpp"],
     [("update of A and b", DD + "relative_position_task.cpp"), ("update of A and b", DD + "orientation_task.cpp"), ("get_kd", DD + "task.cpp")],
     observe=["Task.A", "Task.b", "Task.error", "Task.derror"])
prop("D02", "Contacts transmit exactly the forces their type allows",
     "Each contact acts on its own frame through exactly the force and moment components of its type. When unilateral, the normal force is not negative, tangential forces stay in the friction pyramid and the centre of pressure stays inside the contact length and width; all force and moment penalties weigh exactly the components they are named after, and the reported centre of pressure is that of the contact wrench.",
     ["inputs", "configurations"], "all contact types, sizes, friction coefficients, weights, robot states and wrenches",
     "Mixed-up axes go unnoticed on square feet with symmetric loads.",
     [DD + "contacts.cpp"], [("add_constraints", DD + "contacts.cpp"), ("zmp", DD + "contacts.cpp")], observe=["Contact.wrench", "Contact6D.zmp()"])
prop("D03", "Inverse dynamics solves the posed equations of motion",
     "A dynamics solve poses exactly the registered tasks (with their priority and weight), contacts, constraints and limits on joint accelerations, torques and contact forces linked by the equations of motion, with the floating base unactuated, passive joints giving only their spring, damping and friction torque, and masked or inactive parts left out. The returned accelerations, torques and contact wrenches are those of the solution, integration advances the robot by exactly that acceleration, and failures are reported as failures.",
     ["inputs", "configurations"], "all sets of tasks, contacts, constraints, passive joints and masks, all robot states, with torque or acceleration as decision variables",
     "A wrong sign of a contact jacobian or a missing term gives plausible torques in the few tested configurations.",
     [DS], [("solve", DS)], observe=["DynamicsSolver.solve", "Result.tau", "Result.qdd"])
prop("D04", "Inverse dynamics respects limits and gains as configured",
     "When enabled, torque limits bound every actuated joint by its limit (its own override if set), joint and velocity limits bound the acceleration so that the joint can still stop or stay within its limits at the configured safe acceleration, velocity-dependent torque limits follow the line from full torque to the velocity limit, and close body pairs keep the self-collision margin. Setting gains applies them to all tasks, and every switch concerns exactly what it is named after.",
     ["inputs", "configurations"], "all robot states, limits, time steps, margins and gains",
     "Tests rarely reach a limit, and never all joints on both sides.",
     [DS, DD + "avoid_self_collisions_constraint.cpp"], [("compute_limits_inequalities", DS), ("add_constraint", DD + "avoid_self_collisions_constraint.cpp")],
     observe=["DynamicsSolver.solve", "DynamicsSolver.set_kp"])
prop("D05", "Dynamics tasks and contacts are registered and released once",
     "Every task, contact or constraint created through the dynamics solver is registered once with that solver, holds exactly the given frames, targets and parameters (also when given by name), and is released by the solver exactly once, on removal, clear or destruction; those added by the caller stay the caller's. Removing one removes exactly that one (both parts for frame tasks) and leaves the others in place.",
     ["histories", "inputs"], "all sequences of adding, removing and clearing tasks, contacts and constraints, all parameters",
     "Tests add a few tasks and rarely remove them; double release or swapped arguments need particular sequences.",
     [DS], [("add_task, remove_task, clear", DS)], state=[("tasks, contacts, constraints", "registered objects", DD + "dynamics_solver.h")],
     observe=["DynamicsSolver.add_*", "DynamicsSolver.remove_*"])
HD = "src/placo/humanoid/"
prop("H01", "Footstep displacements are clipped into the configured step area",
     "Steps, symmetric or overlapping, are clipped by scaling all three components by one common factor, exactly on the boundary of the configured box, cone or ellipsoid (different forward and backward lengths, no lateral or rotational step towards the other foot when overlap is checked), and left alone inside. Opposite and neutral frames lie at exactly the foot spacing plus the given displacement on the other side, and durations and step counts follow from the configured durations and ratios.",
     ["inputs", "configurations"], "all displacements, sides, frames and walk parameters",
     "Sampling symmetric steps hides swapped forward and backward limits or the wrong side.",
     [HD + "humanoid_parameters.cpp"], [("*_clip", HD + "humanoid_parameters.cpp"), ("opposite_frame, neutral_frame", HD + "humanoid_parameters.cpp")],
     observe=["HumanoidParameters.ellipsoid_clip()", "HumanoidParameters.opposite_frame()"])
prop("H02", "Footstep and support geometry is that of the feet",
     "The polygon of a footstep is the foot rectangle of its own size at its own frame with the margin on every side; a point is inside exactly if it is on the same side of all edges, and two feet overlap exactly if a corner of one lies in the other. The frame of a support is that foot's frame or the middle of both on the left first, moved by its offset; moving a support moves every footstep and its frame together, and equality compares side and frame.",
     ["inputs", "configurations"], "all foot sizes, frames, margins, points, offsets and one or two feet in either order",
     "Tests use aligned feet of one size; stale or swapped dimensions need particular sequences.",
     [HD + "footsteps_planner.cpp"], [("Footstep, Support", HD + "footsteps_planner.cpp")],
     observe=["Footstep.support_polygon()", "Support.frame()"])
prop("H03", "Footstep plans alternate feet and end where asked",
     "A plan starts with both current feet, the flying one first, and alternates feet with steps inside the clipped step area; the repetitive plan makes exactly the asked number of steps of the configured size and closes with a neutral step, the target plan walks towards the target within its accessible step until both feet have arrived or the step limit is reached. Supports made from footsteps follow them in order, with double supports exactly at the start, in the middle and at the end as requested.",
     ["inputs", "configurations"], "all feet poses, targets, step sizes and counts, sides and flags",
     "Tests check a few hand-made plans; which foot starts, far targets and flag combinations are not sampled.",
     [HD + "footsteps_planner.cpp", HD + "footsteps_planner_naive.cpp", HD + "footsteps_planner_repetitive.cpp"],
     [("make_supports, opposite_footstep", HD + "footsteps_planner.cpp"), ("plan_impl", HD + "footsteps_planner_naive.cpp"), ("plan_impl", HD + "footsteps_planner_repetitive.cpp")],
     observe=["FootstepsPlanner.plan()", "FootstepsPlanner.make_supports()"])
prop("H04", "Inverted pendulum quantities satisfy their definitions",
     "The planned position, velocity, acceleration and jerk are the given initial state followed by the piecewise integration of the jerk; ZMP is position minus acceleration over omega squared, DCM is position plus velocity over omega, and the ZMP velocity is the derivative of the ZMP, both as decision expressions and as trajectories. Continuing from a previous pendulum starts at its final state and time, and omega is the square root of gravity over height.",
     ["inputs", "configurations"], "all step counts, durations, initial states, heights and solutions",
     "Wrong signs are invisible in symmetric or resting plans.",
     [HD + "lipm.cpp"], [("LIPM", HD + "lipm.cpp")], observe=["LIPM.zmp()", "LIPM.dcm()", "LIPMTrajectory.pos()"])
prop("H05", "Swing foot and kick trajectories meet their boundary conditions",
     "Swing foot trajectories start and end at the given places and velocities at exactly the given times, rise to the given height at the stated times, and report velocities that are the derivatives of their positions; a remade trajectory continues the previous one without a jump. Kick trajectories move from the start through the kick pose to the neutral place next to the other foot in the configured proportions.",
     ["inputs", "configurations"], "all start and end times, places, heights, ratios and elapsed fractions",
     "Discontinuities appear only at the joins, between sampled instants.",
     [HD + "swing_foot.cpp", HD + "swing_foot_cubic.cpp", HD + "swing_foot_quintic.cpp", HD + "kick.cpp"],
     [("make_trajectory, remake_trajectory", HD + "swing_foot.cpp"), ("make_trajectory", HD + "swing_foot_cubic.cpp"), ("make_trajectory", HD + "swing_foot_quintic.cpp")],
     observe=["SwingFoot.make_trajectory()", "SwingFootTrajectory.pos()"])
prop("H06", "The humanoid support frame, floating base and observers agree",
     "Putting the robot on the floor or updating it from the inertial unit moves only the floating base, so that exactly the supporting foot (or the trunk orientation) has the required pose; changing support side keeps that foot where it was on the floor. The centre of mass velocity is that seen with the support foot fixed, contact torques satisfy the equations of motion with an unactuated base, ZMP, DCM and camera angles follow their definitions, and sides map to their opposite or their name.",
     ["inputs", "configurations", "histories"], "all robot states, velocities, support sides, orientations, contact forces and targets",
     "Tests start in one posture; roll, pitch and support changes in sequence are not sampled.",
     [HD + "humanoid_robot.cpp"], [("ensure_on_floor, update_support_side, update_from_imu", HD + "humanoid_robot.cpp"), ("get_com_velocity, get_torques", HD + "humanoid_robot.cpp")],
     state=[("support_side", "foot the robot stands on", HD + "humanoid_robot.h")], observe=["HumanoidRobot.update_support_side()", "HumanoidRobot.T_world_support"])
prop("H07", "Walk trajectories answer every query consistently at any time",
     "At any time, before, within or after the plan, a walk trajectory answers from the part that contains that time: a supporting foot stays at its footstep with zero velocity, the flying foot follows its swing, the yaws follow their splines, the centre of mass has the planned height, and ZMP and DCM follow their definitions. A transformation applied to the trajectory applies to every pose, position, velocity, yaw and support it reports, supports asked ahead or back are clamped to the last or first, and asking never changes the trajectory.",
     ["inputs", "histories"], "all times, plans, sides, offsets and applied transformations",
     "Tests query a plan once, without a transformation, at sampled instants.",
     [HD + "walk_pattern_generator.cpp"], [("Trajectory::get_*", HD + "walk_pattern_generator.cpp"), ("_findPart", HD + "walk_pattern_generator.cpp")],
     state=[("parts", "supports with their centre of mass and swing trajectories", HD + "walk_pattern_generator.h"), ("T", "transformation applied to the outputs", HD + "walk_pattern_generator.h")],
     observe=["WalkTrajectory.get_T_world_left()", "WalkTrajectory.get_p_world_CoM()", "WalkTrajectory.get_support()"])
prop("H08", "A walk plan follows its supports, in time and in the ground constraints",
     "Consecutive supports get consecutive time intervals of their default duration scaled by their remaining and time ratios, the centre of mass problem is chained from the given initial state, keeps the ZMP in each support polygon with the configured margin, pulls it to the configured target on the right side of the foot, and stops over an end support. Each swing goes from the foot's previous place to its next one over its support's duration, the support feet stay, and the trunk yaw follows; planning nothing or an infeasible problem is an error.",
     ["inputs", "configurations"], "all support sequences, durations, ratios, parameters, initial states and options",
     "Tests plan a few regular walks with default parameters.",
     [HD + "walk_pattern_generator.cpp"], [("plan, plan_com, constrain_lipm", HD + "walk_pattern_generator.cpp"), ("plan_feet_trajectories, plan_sgl_support, plan_dbl_support", HD + "walk_pattern_generator.cpp")],
     observe=["WalkPatternGenerator.plan()"])
prop("H09", "Replanning continues the current motion and adapts steps within limits",
     "A replanned trajectory starts at the asked time from the centre of mass state, the swing foot state and the yaws of the current one; if the problem cannot be solved the current trajectory is returned, trimmed to the remaining time and marked as not replanned. Supports can be replanned exactly during a single support that is neither first, last nor just before the last, keep the elapsed fraction of the current support, and step adjustments to the measured DCM solve the stated time, position and offset trade-off on the correct side, then move the next step and the remaining duration accordingly.",
     ["inputs", "histories", "configurations"], "all replanning times, trajectories, planners, measured DCMs, sides and parameters",
     "Tests replan at a few times of one walk and never fail the solver.",
     [HD + "walk_pattern_generator.cpp"], [("replan, trim_old_trajectory", HD + "walk_pattern_generator.cpp"), ("replan_supports, can_replan_supports", HD + "walk_pattern_generator.cpp"), ("update_supports, get_optimal_zmp", HD + "walk_pattern_generator.cpp")],
     observe=["WalkPatternGenerator.replan()", "WalkPatternGenerator.replan_supports()", "WalkPatternGenerator.update_supports()"])
prop("H10", "Walk tasks track the walk trajectory in the kinematics solver",
     "Initialising creates one task per foot, for the trunk orientation and for the centre of mass (or the trunk position in trunk mode) with the asked priority, switching modes swaps exactly that task, and removing leaves none of them in the solver. Updating sets every target from the trajectory at the given time (the centre of mass at the delayed time plus the configured offset and, when used, the DCM correction with proportional, leaky integral and derivative terms), and the reported errors are those of the named tasks.",
     ["inputs", "histories", "configurations"], "all trajectories, times, modes, delays, offsets, gains and call sequences",
     "Mode switches, removal and the controller terms are not tested.",
     [HD + "walk_tasks.cpp"], [("update_tasks, update_com_task", HD + "walk_tasks.cpp"), ("update_tasks_and_pid", HD + "walk_tasks.cpp")],
     state=[("com_task, trunk_task", "the one active centre of mass task", HD + "walk_tasks.h")], observe=["WalkTasks.update_tasks()", "WalkTasks.get_tasks_error()"])
prop("H11", "The simple walk alternates feet and interpolates each step",
     "Resetting puts the robot and both feet at the configured spacing with the asked support; each step moves the flying foot from its place to the planned next one along the lift curve while the support foot stays, and then swaps the supports; the trunk stays over the middle of both feet at the configured height and pitch. Moving the support to a given world pose moves all feet, the next step and the robot by the same floor displacement.",
     ["inputs", "histories", "configurations"], "all phases, step sizes, support sides, parameters and call sequences",
     "Tests do not cover this walk.",
     [HD + "dummy_walk.cpp"], [("update, next_step, compute_next_support", HD + "dummy_walk.cpp"), ("update_T_world_support", HD + "dummy_walk.cpp")],
     state=[("T_world_left, T_world_right, T_world_next", "feet of the current step and the next place", HD + "dummy_walk.h")], observe=["DummyWalk.update()", "DummyWalk.next_step()"])
BD = "bindings/"
BFILES = [BD + "expose-%s.cpp" % x for x in ("problem", "tools", "eigen", "robot-wrapper", "kinematics", "dynamics", "footsteps", "parameters", "walk-pattern-generator")]
prop("B01", "Every Python attribute is wired to the C++ entity it is named after",
     "Each attribute, method and constant of the Python interface reads, writes and calls exactly the C++ member or function it stands for, on the object it is accessed on: properties read and write the same member, attributes that are objects are the object itself and not a copy, and no name is bound to another member or overload. Every exposed class offers all of its documented attributes.",
     ["inputs", "configurations"], "all exposed classes, attributes and roles (reading, writing, calling, enumeration value)",
     "There are over eight hundred attributes; the tests touch few of them, and a property that writes another member or a copy looks right when it is only read.",
     BFILES, [("class_ registrations", BD + "expose-*.cpp")], observe=["placo.*"],
     technique="static resolution of every registration in the bindings to the member or function it accesses, compared with a wiring table",
     note="The table spec/bindings.tsv records the entity of each of the attributes (reviewed by name); accessors that only forward are resolved "
          "through lambdas and one-line functions, others are compared by the bindings references (B02). Attributes added later are not judged. "
          "Trusts clang's AST and boost::python's own semantics.")
prop("B02", "Python adapters convert and check like the C++ interface",
     "Where the Python interface adapts a function, the adapter does what the C++ function of that name does with the given arguments: containers, dictionaries, matrices and names are converted element by element, operators on expressions keep their operand order, and objects are updated in place. Indices and frame names that do not exist raise an exception instead of reading outside of the data, and changing an object from Python also refreshes what was derived from it.",
     ["inputs", "histories"], "all arguments of all adapted functions and properties",
     "Adapters are thin and hardly tested from Python with asymmetric arguments or invalid indices.",
     BFILES, [("lambdas and helper functions of the registrations", BD + "expose-*.cpp")],
     observe=["placo.Expression operators", "placo.*.configure", "placo.Support.set_footsteps()"])
prop("M01", "No object is used with values nobody set",
     "When construction of an object ends, each of its numbers, flags, pointers, poses and fixed-size vectors has a value given by its declaration or its constructor, on every path. Text is never written into a buffer without regard to its size.",
     ["inputs", "histories"], "all constructors and all construction paths of all classes, all calls",
     "An uninitialised member usually holds zero in a fresh process, so tests pass by luck.",
     ["src/placo"], [("constructors and member initialisers", "src/placo")],
     technique="definite-assignment analysis of every constructor over the type-checked syntax tree; query for unbounded C text functions",
     note="Members that the documented protocol sets after construction are listed in spec/uninitialised.txt and not judged. Loops are assumed to "
          "run at least once, so an initialisation inside an empty loop is not reported.")
prop("M02", "Owned objects are released once and through their own type",
     "An object that releases other objects when it is destroyed is never duplicated, neither inside the library nor when it crosses into Python, so nothing it owns can be released twice or while still in use. Objects of derived types are released through a virtual destructor. Removing, clearing and destroying releases exactly the objects the solver or problem owns, each once, and never those of the caller.",
     ["inputs", "histories"], "all functions and Python accessors that construct, return, assign or delete objects",
     "Duplicating an owner only fails when the copy dies before the original, in a particular order of collection.",
     ["src/placo", "bindings"], [("destructors and delete expressions", "src/placo"), ("return policies", "bindings")],
     technique="ownership analysis: classes whose destructor releases objects (also through members) are found and every copy or assignment of one is reported; value-graph comparison of the releasing functions with reference functions",
     note="Covers copies in the sources and in the registered accessors. Objects kept alive only by Python references are not covered.")
prop("M03", "No reference, iterator or lazy expression outlives what it refers to",
     "No function keeps or returns a reference to a local or temporary object, stores an unevaluated matrix expression over a temporary, uses a reference or iterator into a sequence after the sequence has changed, or changes a sequence while iterating over it.",
     ["inputs", "histories"], "all functions and all paths through them",
     "Dangling references usually still read the right value until memory is reused, or until a sequence reallocates.",
     ["src/placo", "bindings"], [("local references and auto variables", "src/placo"), ("loops over containers", "src/placo")],
     technique="flow-sensitive lifetime and invalidation analysis over the type-checked syntax tree",
     note="Intra-procedural: references invalidated by a called function, or held in members, are not tracked.")
prop("N01", "The solution of the quadratic program is optimal and feasible",
     "The returned decision vector satisfies all hard constraints within tolerance and no other decision vector that does has a lower weighted cost.",
     ["inputs"], "all problems", "Needs every problem, not a sample.",
     ["src/placo/problem/problem.cpp"], [("call of the external solver", "src/placo/problem/problem.cpp")])
na("N01", "Optimality is computed at run time by the iterative eiquadprog library, outside the repository; no static argument in reach bounds its floating-point iterations. What the repository contributes, the program handed over and the checks and copies of the result, is decided by A03.")
prop("N02", "Repeated kinematics steps converge to reachable targets",
     "When the targets are reachable, repeating solve and update brings all task errors to zero without leaving the joint limits.",
     ["inputs", "histories"], "all robots, starting postures and reachable targets", "Convergence depends on the posture.",
     ["src/placo/kinematics/kinematics_solver.cpp"], [("solve", "src/placo/kinematics/kinematics_solver.cpp")])
na("N02", "Convergence of a nonlinear iteration is a numerical property of trajectories of run-time values; it has local minima and no static bound. The linearised step itself (errors, Jacobians, limits) is decided by K01 to K06.")
prop("N03", "Planned walks keep the robot balanced in floating point",
     "For feasible plans the planned ZMP stays in the support polygon between the constrained instants too, and rounding errors stay below the margins over any walk length.",
     ["inputs", "histories"], "all walks", "Requires bounds between samples and on accumulated rounding.",
     ["src/placo/humanoid/walk_pattern_generator.cpp"], [("constrain_lipm", "src/placo/humanoid/walk_pattern_generator.cpp")])
na("N03", "The ZMP between the constrained instants is a property of run-time solver output, and the analysis works over real arithmetic, so rounding is out of its reach. The constraints, timing and integration are decided by H04 and H08.")
prop("N04", "Solving takes bounded time",
     "A solve, an update and a replan finish within a time that allows real-time control.",
     ["inputs"], "all problem sizes", "Needs worst-case timing.", ["src/placo/problem/problem.cpp"], [("solve", "src/placo/problem/problem.cpp")])
na("N04", "Running time depends on the external solver's iterations and on the machine; no static bound is in reach.")
