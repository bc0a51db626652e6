DIM = "All values are symbolic reals (no bound on values); run-time sizes are enumerated, so the result is labelled bounded: "
COMPLETE = "Fixed-size data and all inputs symbolic: every path of the code is explored, no bound; real arithmetic. "
TESTS = "The repository's tests cover block matrix arithmetic, one Euler conversion and the triple integrator on fixed numbers; "

prop("C01", "Every constraint form means the same general constraint",
 "Whatever form a task uses to state its constraints (general, located in a part of the solution, simple bounds, or located simple bounds; equality or two-sided; with or without weights), its residual, bounds, counts, conversion to the general matrix form and copy into a caller's buffers describe exactly the same set of inequalities lb <= A x <= ub. Writing a constraint into a block of a larger matrix changes nothing outside that block.",
 ["inputs", "configurations"], "all constraint forms, all matrix values, weights and solutions",
 TESTS + "no test creates a task or a constraint.",
 [H+"constraints_base.h", H+"constraints_mixins.h", H+"constraints.h", H+"task.h"],
 [("conversion of each constraint form to the general form", H+"constraints.h"), ("storage mixins", H+"constraints_mixins.h")],
 note=DIM)

prop("C02", "The QP objective is the sum of squared task residuals",
 "For every set of equality tasks on the last level of a hierarchy, the quadratic objective handed to a solver equals, for every x, the sum of the squared residuals of these tasks (up to its constant). Its declared Hessian type matches its contents, regularisation changes only the diagonal, and inequality tasks are refused as objectives.",
 ["inputs", "configurations"], "all equality constraint forms, any mix of them, all values",
 TESTS + "no test assembles an optimisation problem.",
 [H+"qp_problem.h", H+"hierarchy_level.h", H+"hierarchy.h", H+"constraints.h"],
 [("sum of A'A and A'b over the tasks", H+"qp_problem.h QPObjective::initializeObjective, "+H+"constraints.h getATAandATb/addATAandATb")],
 note=DIM)

prop("C03", "Stacked hierarchy levels contain every task exactly once",
 "After a hierarchy is formed, every level's stacked matrices contain the constraints of each of its tasks exactly once, at the location recorded for the task (general constraints before bounds on single variables), and with the advertised counts of equalities, inequalities and simple bounds; disabled or empty tasks contribute nothing. Reset, re-forming and changing sizes leave nothing of the previous problem behind.",
 ["inputs", "configurations", "histories"], "all task mixes, level assignments and repeated forming",
 TESTS + "no test builds a hierarchy.",
 [H+"hierarchy.h", H+"hierarchy_level.h", H+"task.h", H+"constraints.h"],
 [("pushTask, form and the level stacking", H+"hierarchy_level.h"), ("locations of tasks in a level", H+"hierarchy_level.h")],
 note=DIM)

prop("C04", "Violations and active sets reflect the solution exactly",
 "The violations computed for a task or a level are, row by row, the signed distance by which the solution leaves the bounds (zero inside), and the constraint states determined from a solution are exactly those its position defines: equality for equalities and coinciding bounds, lower or upper when at or beyond that bound, inactive strictly between, undefined for contradicting bounds.",
 ["inputs", "configurations"], "all constraint forms, all bounds and solutions",
 TESTS + "no test evaluates a violation or an active set.",
 [H+"violations.h", H+"active_set.h", H+"constraints.h", H+"task.h", H+"hierarchy_level.h"],
 [("getViolations / determineActiveSet of the constraint forms", H+"constraints.h"), ("Violations and ActiveSet containers", H+"violations.h, "+H+"active_set.h")],
 note=DIM)

prop("C05", "Active-set warm starts carry over task by task",
 "When a problem is re-formed, the active-set guess of each task is the part of the previous active set that belonged to that task, wherever the task now sits in the stack, and tasks without a usable guess start inactive (equalities: active). Converting the active set to and from the per-task form and shifting it loses nothing else.",
 ["inputs", "histories", "configurations"], "all previous active sets and all changes of the task list",
 TESTS + "no test transfers an active set.",
 [H+"active_set.h", H+"hierarchy_level.h", H+"hierarchy.h", H+"task.h"],
 [("copyTo/copyFrom of active sets", H+"active_set.h"), ("guessActiveSet / postForm", H+"task.h")],
 note=DIM)

prop("C06", "Named parts of the solution vector partition it",
 "The named parts of a solution are contiguous, disjoint, in order of declaration and cover the whole vector; reading or writing a part touches exactly its own entries and locations outside the vector are refused. A guess made from an earlier solution copies every part of unchanged length and zeroes the others.",
 ["inputs", "configurations", "histories"], "all sets of parts, lengths, contents, and pairs of old and new structures",
 TESTS + "no test uses the solution structure.",
 [H+"solution.h", H+"control_problem.h", H+"utility.h"],
 [("SolutionStructure and Solution", H+"solution.h")],
 note=DIM)

prop("C07", "The assembled QP has exactly the hierarchy's feasible set",
 "The bounds and general constraints of the assembled quadratic program admit exactly the points that satisfy every constraint of all levels but the last: overlapping simple bounds are combined to the tightest ones, general constraints keep their rows, and a one-level hierarchy yields an unconstrained program, also when the same object held another problem before.",
 ["inputs", "configurations", "histories"], "all two-level hierarchies of all constraint forms, all values, all assembly histories",
 TESTS + "no test assembles a QP.",
 [H+"qp_problem.h", H+"hierarchy.h", H+"hierarchy_level.h", H+"solver.h"],
 [("copyTwoSidedInequalityConstraints, tightest bounds", H+"qp_problem.h"), ("getQPProblem", H+"hierarchy.h")],
 note=DIM)

prop("C08", "Condensing reproduces the system recurrence",
 "For every sequence of state and control matrices, the condensed prediction S x0 + U u equals, at every step, the state obtained by iterating x(k+1) = A(k) x(k) + B(k) u(k), and condensed outputs equal D(k) x(k) + E(k) u(k). The dense, block, time-invariant and multi-control variants agree.",
 ["inputs"], "all system matrices, initial states and control sequences",
 TESTS + "no test calls the condensing functions.",
 [H+"control_problem.h", "core/include/eigentools/blockmatrix.h"],
 [("condense, condenseTimeInvariant, condenseOutput", H+"control_problem.h")],
 level="other", note=DIM)

prop("C09", "Triple integrator matrices are the exact discretisation",
 "For jerk, acceleration, velocity and position control and any sampling period, the triple integrator matrices give the exact state after a period of constant jerk, the subsampling matrices give the exact state at any earlier instant and agree with the full step at its end, and the output matrices recover the applied jerk.",
 ["inputs"], "all sampling periods, sub-periods, states and controls",
 "The regression tests evaluate the matrices at a single sampling period and compare with recorded numbers.",
 ["core/include/rigid_body/triple_integrator.h"],
 [("getA*/getB*/getAs*/getBs*/getD*/getE*", "core/include/rigid_body/triple_integrator.h")],
 level="proof", note=COMPLETE+"Instantiated for 1, 2 and 3 axes.")

prop("C10", "Rotations stay rotations and conversions are mutually consistent",
 "Euler angles convert to the product of elementary rotations in the documented order, converting back gives angles of the same rotation, the rate transformation maps angle rates to the angular velocity of that rotation, angular-velocity integration of a rotation yields the exact rotation, and the rotation error of a pair of orientations is that of reference times current inverse.",
 ["inputs"], "all angles, orientations, velocities and durations",
 "One regression test converts one fixed triple of angles.",
 ["core/include/rigid_body/rotary_state.h", "core/include/eigentools/cross_product.h"],
 [("conversion and integration functions", "core/include/rigid_body/rotary_state.h")],
 level="proof", note=COMPLETE+"Library functions obey their defining identities (sin, cos, atan2, sqrt).")

prop("C11", "Interpolated trajectories meet their boundary conditions",
 "A cubic interpolant and the foot trajectory built from it pass through the given initial and final positions with the given velocities, their velocity and acceleration are the time derivatives of their position, and evaluation outside the interval is refused. The vertical foot trajectory is at exactly the step height with zero vertical velocity in the middle of the swing.",
 ["inputs"], "all boundary conditions and all times",
 TESTS + "no test evaluates a trajectory.",
 ["core/include/rigid_body/cubic_polynomial.h", "core/include/walking/foot_trajectory.h"],
 [("coefficients and evaluation", "core/include/rigid_body/cubic_polynomial.h"), ("piecewise trajectory", "core/include/walking/foot_trajectory.h")],
 level="proof", note=COMPLETE+"Sampled evaluation of whole vectors is bounded to 6 samples.")

prop("C12", "The point-mass walking model obeys its dynamics",
 "For every pendulum frequency and sampling period, the discrete point-mass model reproduces the exact solution of the linear inverted pendulum for constant controls, its centre-of-pressure output is consistent with its state, and converting the state between its two representations and back changes nothing.",
 ["inputs"], "all frequencies, periods, states and controls",
 TESTS + "no test uses the walking model.",
 ["core/include/walking/point_mass_model_6z.h"],
 [("A, B, D, E matrices and state conversion", "core/include/walking/point_mass_model_6z.h")],
 level="proof", note=COMPLETE)

prop("C13", "Left and right foot parameters mirror each other",
 "Bounds for foot positions and for the centre of pressure of the left and right foot are mirror images of each other, are ordered (lower below upper); placing a foot from a double support and a double support from a foot are mutually inverse and keep the feet the default distance apart for every orientation.",
 ["inputs", "configurations"], "all foot dimensions, distances and orientations",
 TESTS + "no test uses foot parameters.",
 ["core/include/walking/robot_foot_parameters.h"],
 [("finalize and accessors", "core/include/walking/robot_foot_parameters.h")],
 level="proof", note=COMPLETE)

prop("C14", "The stance machine walks the planned number of steps",
 "From every configuration the stance sequence alternates the supporting foot, separates single supports by the configured double supports, contains exactly the configured number of steps with the configured durations, ends in a terminal stance and stays there; previewing does not disturb the executed sequence and shifting time consumes exactly the elapsed time.",
 ["configurations", "histories"], "all step counts, durations, initial stances and call sequences",
 TESTS + "no test uses the stance machine.",
 ["core/include/walking/stance_finite_state_machine.h"],
 [("StanceFiniteStateMachine", "core/include/walking/stance_finite_state_machine.h")],
 note="Durations, times and step counts are unbounded symbolic integers: initial state and stance transition are proved for every state (unbounded by induction over stances); time shifts and previews are explored for up to 3 stance changes per call, whole walks up to 9 steps (bounded).")

prop("C15", "Structured block matrices compute what dense ones would",
 "Every operation on block matrices with a declared sparsity (generic, block-diagonal, triangular, Kronecker with identity) gives the same result as the same operation on the equivalent dense matrices, and block access addresses exactly the block it names.",
 ["inputs"], "all sparsity combinations, block sizes and values",
 "The regression tests multiply a few fixed matrices and compare with recorded numbers.",
 ["core/include/eigentools/blockmatrix_base.h", "core/include/eigentools/blockmatrix.h", "core/include/eigentools/blockmatrix_kronecker.h"],
 [("block products, sums, transposes and selection", "core/include/eigentools/blockmatrix.h")],
 note=DIM)

prop("C16", "Matrix utilities implement their matrix identities",
 "The dense matrix helpers (row selection, removal and concatenation, block-diagonal construction, normal equations, Kronecker products, rotation of blocks, cross-product matrices) return exactly the matrix they are documented to return for every input and never touch anything else.",
 ["inputs"], "all sizes and values",
 "The regression tests cover concatenation of fixed matrices only.",
 ["core/include/eigentools/eigentools.h", "core/include/eigentools/cross_product.h"],
 [("etools functions", "core/include/eigentools/eigentools.h")],
 note=DIM)

prop("C17", "The KKT solver returns the constrained least-squares optimum",
 "For every problem with equality constraints of full rank, the built-in equality solver returns a point that satisfies all constraints and at which the gradient of the objective is a combination of the constraint gradients; it is the optimum for every weighting of the objective and constrained and unconstrained variants agree.",
 ["inputs", "configurations"], "all objectives and equality constraints",
 TESTS + "no test calls the solver.",
 ["core/include/kktsolver.h", H+"solver.h", H+"qp_problem.h"],
 [("KKT system", "core/include/kktsolver.h")],
 note=DIM)

prop("C18", "Configuration written by an object is read back unchanged",
 "Writing the configuration of any configurable object (parameters, states, tasks, solutions, hierarchies of tasks) to a MessagePack or YAML file and reading it into another of the same kind, whatever that held before, reproduces every entry, for every value, together with the values derived from the entries; sections of one file are found by their names. A missing mandatory entry, an entry of another kind or size and an unknown task name are reported as errors by exceptions; where entries are optional the missing ones take their default values and all others are read.",
 ["inputs", "configurations"], "all configurable classes and all entry values",
 TESTS + "no test reads or writes a configuration.",
 ["core/include/config.h", "core/include/config/define_accessors.h", "bridges/config_yaml/interface/config_yaml/reader.h", "bridges/config_yaml/interface/config_yaml/writer.h", "bridges/config_msgpack/interface/config_msgpack/reader.h", "bridges/config_msgpack/interface/config_msgpack/writer.h", H+"configurable_optimization_problem.h"],
 [("generated accessors", "core/include/config/define_accessors.h"), ("msgpack reader and writer", "bridges/config_msgpack/interface/config_msgpack"), ("yaml reader and writer", "bridges/config_yaml/interface/config_yaml")],
 note=DIM)

prop("C19", "The walking preview describes the planned footsteps",
 "The walking preview horizon lists, for every interval, the planned stance, duration and footstep: intervals of one support refer to the same footstep, consecutive footsteps alternate, fixed footsteps keep their measured positions, and the selection matrices pick exactly the variable footsteps.",
 ["configurations", "histories"], "all stance sequences and horizon lengths",
 TESTS + "no test builds a preview horizon.",
 ["modules/wpg04/include/wpg04/preview_horizon.h", "modules/wpg04/include/wpg04/mpc_wpg.h"],
 [("PreviewHorizon", "modules/wpg04/include/wpg04/preview_horizon.h")],
 note=DIM)

prop("C20", "The walking MPC predicts the states its controls produce",
 "For every solution vector, the walking controller's prediction matrices give exactly the states, velocities and centres of pressure obtained by simulating the walking model with the controls and footsteps in that vector, and the next model state it reports is the first predicted one.",
 ["inputs", "configurations", "histories"], "all solutions, states and stance sequences",
 TESTS + "no test runs the controller.",
 ["modules/wpg04/include/wpg04/mpc_wpg.h", "modules/wpg04/include/wpg04/model.h"],
 [("update and matrices of MPCforWPG", "modules/wpg04/include/wpg04/mpc_wpg.h")],
 note=DIM)

prop("C21", "Walking tasks constrain the quantities they name",
 "Every walking task states exactly its objective or bounds over the predicted quantities: velocity and position references penalise the deviation of the predicted values with the configured gain, and the centre-of-pressure, footstep and terminal constraints hold exactly when the predicted values are inside the support, reachable and capturable regions.",
 ["inputs", "configurations"], "all model states, solutions, gains and stance sequences",
 TESTS + "no test forms these tasks.",
 ["modules/wpg04/include/wpg04/task_copbounds.h", "modules/wpg04/include/wpg04/task_footstepbounds.h", "modules/wpg04/include/wpg04/task_terminalconstraint.h", "modules/wpg04/include/wpg04/task_comvelocity.h", "modules/wpg04/include/wpg04/task_copposition.h", "modules/wpg04/include/wpg04/task_copvelocity.h"],
 [("form functions of the tasks", "modules/wpg04/include/wpg04")],
 note=DIM)

prop("C22", "The wheeled-robot model combines its masses consistently",
 "The two-mass model of the wheeled robot computes the overall centre of mass and centre of pressure of its base and body from their states and parameters by the laws of mechanics, its matrices are the exact discretisation of constant-jerk motion, and advancing the model keeps all its parameters and the state it does not advance.",
 ["inputs"], "all masses, heights, states, controls and sampling periods",
 TESTS + "no test uses this model.",
 ["modules/pepper_mpc/include/pepper_mpc/two_point_mass_model.h", "modules/pepper_mpc/include/pepper_mpc/model_state.h", "modules/pepper_mpc/include/pepper_mpc/model.h"],
 [("TwoPointMassModel, ModelState", "modules/pepper_mpc/include/pepper_mpc")],
 level="proof", note=COMPLETE+"The bounds of the circular base are checked within 1e-12 r^2 (the literal 2/sqrt(2) is rounded in double).")

prop("C23", "The wheeled-robot MPC predicts the states its controls produce",
 "For every solution vector, the wheeled-robot controller's prediction matrices give exactly the base and body states and centres of pressure obtained by simulating the model with the controls in that vector, each state reported for an index of the horizon is the one predicted for that index, also between the sampling instants and after the controller is used again with another horizon, and the preview carries at each interval the reference of the planned motion in force at its end.",
 ["inputs", "configurations", "histories"], "all solutions, states, references and horizon lengths",
 TESTS + "no test runs this controller.",
 ["modules/pepper_mpc/include/pepper_mpc/mpc_mg.h", "modules/pepper_mpc/include/pepper_mpc/preview_horizon.h"],
 [("MPCforMG", "modules/pepper_mpc/include/pepper_mpc/mpc_mg.h")],
 note=DIM)

prop("C24", "Wheeled-robot tasks constrain the quantities they name",
 "Every wheeled-robot task states exactly its objective or bounds over the predicted quantities: reference tasks penalise the deviation from the reference with the configured gain, jerk tasks the controls, and the bounds on velocity, acceleration, body position (relative to the base, in its frame) and centre of pressure hold exactly when every predicted value respects them; the guessed active sets of the bounds are those of the previous solution shifted by one interval.",
 ["inputs", "configurations"], "all states, solutions, references, gains and limits",
 TESTS + "no test forms these tasks.",
 ["modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h", "modules/pepper_mpc/include/pepper_mpc/task_coppositionbounds.h", "modules/pepper_mpc/include/pepper_mpc/task_basevelocitybounds.h"],
 [("form functions of the tasks", "modules/pepper_mpc/include/pepper_mpc")],
 note=DIM)

prop("C25", "Generic tasks state exactly the configured constraint",
 "The generic tasks (minimise all variables, minimise a named part of the solution, minimise selected variables, and the deliberately infeasible inequality) state exactly the configured constraint, gain times the named variables equal to zero, for every gain and size, also when the gain or the structure of the solution changes between two formings; a part that does not exist leaves everything unconstrained. An obstacle keeps exactly the state and the constraints it was last given.",
 ["inputs", "configurations"], "all gains, references, bounds and sizes",
 TESTS + "no test forms a task.",
 [H+"task_generic.h", "bridges/obstacle_avoidance/obstacles/obstacle_base.h"],
 [("generic task classes", H+"task_generic.h")],
 note=DIM)

prop("C26", "Solver interfaces hand over the assembled problem and report faithfully",
 "Every QP solver interface (qpOASES, qpmad, QuadProg++) hands its library exactly the objective and the constraints of the hierarchy, the configured regularisation and limits, and the guesses of the solution and of the active set that were passed, whichever overload of solve is used and whatever the solver object solved before; the solution, the status and the active set of the library come back unchanged in terms of the rows of the hierarchy. A failure is an error unless disabled, and hierarchies which are no quadratic program are refused.",
 ["inputs", "configurations", "histories"], "all problems, guesses, results of the libraries, and previously solved problems",
 TESTS + "no test is built with any of these solvers.",
 [H+"solver.h", "bridges/qpOASES/interface/qpoases/solver.h", "bridges/qpmad/interface/qpmad/solver.h", "bridges/QuadProgpp/interface/quadprogpp/solver.h"],
 [("Solver and its mixins", H+"solver.h"), ("solver interfaces", "bridges/*/interface")],
 note=DIM)
prop("C27", "Kinematics and whole-body control of Pepper follow the pose of the robot",
 "For every robot, pose and coordinates the kinematic quantities of the RBDL bridge and of the Pepper model (positions, orientations, Jacobians of tags, masses, centres of mass and their Jacobians) are those of the pose last set, whatever was computed before. The joint numbering, limits and wheels describe one robot. Each inverse-kinematics task asks for exactly the motion it names, scaled by its gains, for the tag it names; limits are limits of the next pose; the next state is the state plus the solution; commands and transitions outside the limits are refused, those inside are passed unchanged.",
 ["inputs", "configurations", "histories"], "all kinematic trees, poses, gains, references, limits and commands; objects reused for other states and tags",
 TESTS + "the tests of pepper_ik need RBDL and are not built; they only run one motion and compare nothing.",
 ["bridges/rbdl/interface/rbdl/model.h", "modules/pepper_ik/include/pepper_ik/model.h", "modules/pepper_ik/include/pepper_ik/whole_body_controller.h", "modules/pepper_ik/include/pepper_ik/model_description.h"],
 [("kinematics", "bridges/rbdl/interface"), ("model, controller and tasks", "modules/pepper_ik/include/pepper_ik")],
 note=DIM)
