"""
Source of /verif/properties.jsonl and /verif/MANIFEST.json: run
`python3 tools/props.py` after editing.  The checks do not read this file.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "neural_network_lyapunov/"
PROPS = []


def P(pid, title, statement, over, qtext, why, files, mech, observe,
      technique, note, state=None, hook=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (pid, statement)
    PROPS.append(dict(
        id=pid, title=title, statement=" ".join(statement.split()),
        quantifier={"over": over, "text": " ".join(qtext.split())},
        why_tests_cant=" ".join(why.split()),
        anchors={"files": [PK + f for f in files],
                 "mechanism": [{"name": n, "where": PK + w}
                               for n, w in mech],
                 "state": [{"name": a, "meaning": b, "where": PK + w}
                           for a, b, w in (state or [])],
                 "observe_at": observe, "hook_needed": hook},
        _technique=" ".join(technique.split()),
        _note=" ".join(note.split())))


TRUST = ("Sampled evidence, not a proof: trusts numpy/torch arithmetic, the "
         "HiGHS/Clarabel-backed stand-in for the (absent) Gurobi solver, and "
         "1e-6-scale tolerances. ")
TRUST0 = ("Sampled evidence, not a proof: trusts numpy/torch arithmetic and "
          "the stated tolerances. ")

P("P01", "The MIP encoding of a ReLU network is exactly the network's graph",
  """For any fully connected (leaky) ReLU network and any finite input box, the
  mixed-integer linear constraints generated for the network are satisfiable
  at every input in the box, and there they admit exactly the network's output
  as output and each ReLU unit's value as slack. The bounds returned with the
  constraints contain every value reached over the box. This holds whichever
  bound-propagation method is chosen.""",
  ["inputs", "configurations", "programs"],
  """every network shape, weights, leaky slope, bias or not; every input box
  including degenerate ones; every input in the box including kinks and
  corners; every bound-propagation method""",
  """existing tests fix a handful of random networks and compare at sampled
  points; they need a Gurobi licence and do not run in the stable suite at
  all""",
  ["relu_to_optimization.py", "relu_to_optimization_utils.py", "utils.py",
   "mip_utils.py"],
  [("big-M encoding of each neuron",
    "relu_to_optimization_utils.py:_add_constraint_by_neuron"),
   ("layer assembly", "relu_to_optimization.py:ReLUFreePattern.output_constraint"),
   ("bound propagation", "relu_to_optimization.py:_compute_layer_bound")],
  ["solution set of the generated constraints, probed by solving max/min of "
   "each output/slack with the input fixed", "returned bounds"],
  """online monitor over solver runs of the generated constraints, compared
  with an independent forward-pass reference at sampled, corner and kink
  inputs""",
  TRUST + "Existence, uniqueness and bound containment are judged per sampled "
  "(network, box, method, input).",
  state=[("z_pre_relu_lo/up", "pre-activation bounds used as big-M",
          "relu_to_optimization.py:ReLUFreePattern.output_constraint")])

P("P02", "MIP encodings of the ReLU network gradient give exactly its gradient",
  """For any ReLU network, the gradient with respect to the input written as a
  function of the activation pattern, and the mixed-integer constraints for
  the gradient times a bounded vector, admit exactly the true value for the
  activation chosen, and their returned bounds contain it. The affine map and
  polyhedron returned for a given activation pattern equal the network on that
  polyhedron, and the enumeration of patterns at an input yields all patterns
  consistent with it, each giving one possible one-sided gradient.""",
  ["inputs", "configurations", "programs"],
  """every network, activation pattern, input (on and off kinks), vector box
  and vector in it""",
  """tests check a few fixed networks and need Gurobi; ties at kinks and
  sign-changing vector bounds are hardly sampled""",
  ["relu_to_optimization.py", "utils.py"],
  [("path expansion of the gradient", "relu_to_optimization.py:output_gradient"),
   ("gradient times vector", "relu_to_optimization.py:output_gradient_times_vector"),
   ("pattern enumeration",
    "relu_to_optimization.py:compute_all_relu_activation_patterns"),
   ("affine piece", "relu_to_optimization.py:ReLUGivenActivationPattern")],
  ["the constraint data and solver runs with the activation fixed"],
  """trace oracle: independent Jacobian/affine-piece reference vs the generated
  constraints, with binaries fixed to observed activations""",
  TRUST)

P("P03", "Bound propagation is sound for every method, exact where promised",
  """Propagating an input box through a linear or (leaky) ReLU layer, or
  computing the range of a linear function over a box with linear
  constraints, returns lower and upper bounds that contain every reachable
  value. The optimization-based ranges equal the true extreme values, interval
  arithmetic is exact per layer, and tighter methods never lose reachable
  values.""",
  ["inputs", "configurations"],
  """every layer, slope (including negative and greater-than-one slopes),
  input interval, polytope and method""",
  """tests sample a few random layers; sign-change, zero-slope and degenerate
  intervals are not enumerated""",
  ["mip_utils.py", "relu_to_optimization.py", "utils.py"],
  [("propagate_bounds", "mip_utils.py:propagate_bounds"),
   ("LP range", "mip_utils.py:compute_range_by_lp"),
   ("IA range", "mip_utils.py:compute_range_by_IA"),
   ("leaky relu interval", "utils.py:leaky_relu_interval"),
   ("polytope bounds", "utils.py:compute_bounds_from_polytope")],
  ["returned lower/upper tensors"],
  """bounds monitor: returned ranges vs values sampled on the real layer and vs
  exact extreme values by vertex enumeration/independent LP""",
  TRUST)

P("P04", "Scalar building-block encodings are exact over their whole domain",
  """The mixed-integer encodings of binary-times-continuous product, maximum,
  absolute value, (leaky) ReLU, leaky-ReLU gradient times a variable, input
  saturation and box-boundary membership each admit, for every input in the
  declared range, exactly the function's value (and a binary consistent with
  it). This includes ranges
  touching or excluding zero and limits lying outside the input range.""",
  ["inputs", "configurations"],
  """every lower/upper bound (signs, zero, equal to a limit), number of
  arguments, slope, input value and option flag""",
  """tests enumerate a few bound values; the sign-case branches of the
  encoders are only sampled and need Gurobi""",
  ["utils.py"],
  [("product", "utils.py:replace_binary_continuous_product"),
   ("max", "utils.py:max_as_mixed_integer_constraint"),
   ("abs", "utils.py:absolute_value_as_mixed_integer_constraint"),
   ("leaky relu", "utils.py:replace_leaky_relu_mixed_integer_constraint"),
   ("saturation", "utils.py:add_saturation_as_mixed_integer_constraint"),
   ("box boundary", "utils.py:box_boundary")],
  ["feasible (input, output, binary) triples of the encodings"],
  """online monitor over solver runs: feasible output interval at fixed inputs
  compared with the scalar function, all sign cases driven""",
  TRUST)

P("P05", "Strengthening cuts never exclude a true point and do tighten the MIP",
  """Every cut generated to strengthen the relaxation of a ReLU unit, a
  network, a controller or a Lyapunov program is satisfied by every point of
  the true graph over the input box, so adding cuts leaves the optimum of the
  integer program unchanged. The cut chosen for a relaxed point is a most
  violated one of its family.""",
  ["inputs", "configurations"],
  """every weight vector, box, index set, relaxed point, and network""",
  """tests check a few random neurons and networks; validity is a statement
  over all points of the box""",
  ["mip_utils.py", "relu_to_optimization.py", "feedback_system.py",
   "lyapunov.py"],
  [("cut for index set", "mip_utils.py:strengthen_relu_mip_w_indices"),
   ("most violated index set", "mip_utils.py:find_index_set_to_strengthen"),
   ("network cuts", "relu_to_optimization.py:strengthen_mip_at_point"),
   ("all cuts", "mip_utils.py:strengthen_relu_mip")],
  ["cut coefficients; optimum before and after the cuts"],
  """cut-validity monitor: true graph points against every emitted cut,
  brute-force separation reference, optimum before/after""",
  TRUST)

P("P06", "Composing mixed-integer constraints preserves the sets they describe",
  """Substituting an affine map for the input of a constraint set, cloning it,
  and concatenating two of them yield constraint sets describing exactly the
  substituted, the same, and the combined relation respectively, including
  variable bounds. Added to a program, with new or with existing (possibly
  relaxed) binaries, a set admits exactly its points and outputs. Derivatives pass through to the operands, and the operands and the
  tensors they share with their creator are unaffected.""",
  ["inputs", "programs", "histories"],
  """every presence/absence combination of blocks (inequality, equality,
  output, slack, binary, bounds), sizes, and stacking/shared-input options""",
  """tests cover two or three fixed block combinations; the combination space
  and aliasing effects are not reachable by examples""",
  ["gurobi_torch_mip.py"],
  [("transform_input", "gurobi_torch_mip.py:MixedIntegerConstraintsReturn.transform_input"),
   ("clone", "gurobi_torch_mip.py:MixedIntegerConstraintsReturn.clone"),
   ("concatenate", "gurobi_torch_mip.py:concatenate_mixed_integer_constraints"),
   ("add to program", "gurobi_torch_mip.py:GurobiTorchMIP.add_mixed_integer_linear_constraints")],
  ["membership of sampled points before and after; operand tensors"],
  """membership oracle over generated constraint sets: sampled assignments
  judged against operands and composition; operand-mutation monitor""",
  TRUST0)

P("P07", "The recorded torch constraint data equal the solver's program",
  """After any sequence of adding variables, linear constraints, matrix
  constraints and constraint sets, the constraint matrices and right-hand
  sides kept for differentiation describe exactly the program handed to the
  solver, including variable bounds, types and names. Relaxing or restoring
  the binaries changes only their type, and the objective is always exactly
  the one last set.""",
  ["histories", "inputs", "configurations"],
  """every sequence of additions with every variable type, bound, sense,
  shared variables, and constraint-set shape""",
  """tests add a few fixed constraints; consistency must hold over histories
  of additions""",
  ["gurobi_torch_mip.py"],
  [("addVars", "gurobi_torch_mip.py:GurobiTorchMIP.addVars"),
   ("addLConstr", "gurobi_torch_mip.py:GurobiTorchMIP.addLConstr"),
   ("addMConstr", "gurobi_torch_mip.py:GurobiTorchMIP.addMConstr"),
   ("constraint sets",
    "gurobi_torch_mip.py:GurobiTorchMIP.add_mixed_integer_linear_constraints")],
  ["matrices read back from the solver model vs the torch data"],
  """conservation monitor: after randomized histories the solver model is read
  back and compared with the recorded data (feasible-set equality)""",
  TRUST,
  state=[("Ain_r/Ain_zeta/rhs_in, Aeq_*", "recorded constraint data",
          "gurobi_torch_mip.py:GurobiTorchMIP")])

P("P08", "The differentiable optimum matches the solver and its true gradient",
  """After a mixed-integer linear or convex quadratic program is solved, the
  objective recomputed from the recorded data, for the best and for each pooled
  solution, equals that solution's objective value. Its gradient with respect
  to the data equals the true derivative of the optimal value with the binary
  solution held fixed, wherever that derivative exists.""",
  ["inputs", "configurations"],
  """every program with bounded optimum: any number of continuous/binary
  variables, active sets, senses, penalties and pool sizes""",
  """tests use a few fixed programs; active-set choice and binary pooling
  depend on the solver's answer""",
  ["gurobi_torch_mip.py"],
  [("active set", "gurobi_torch_mip.py:get_active_constraints"),
   ("MILP objective",
    "gurobi_torch_mip.py:GurobiTorchMILP.compute_objective_from_mip_data"),
   ("MIQP objective",
    "gurobi_torch_mip.py:GurobiTorchMIQP.compute_objective_from_mip_data"),
   ("objective from solution",
    "gurobi_torch_mip.py:compute_objective_from_mip_data_and_solution")],
  ["recomputed objective tensor and autograd gradient"],
  """differential monitor: recomputed value vs solver value; autograd vs
  finite difference of an independent re-solve with fixed binaries""",
  TRUST)

P("P09", "Lyapunov value and positivity programs are faithful",
  """The Lyapunov candidate equals network difference plus weighted norm of the
  transformed error, is zero at the equilibrium, and its positivity program
  has as optimum exactly the largest positivity violation over the state box.
  An optimal value of at most zero therefore certifies positivity, and a
  positive value comes with a state that attains it.""",
  ["inputs", "configurations"],
  """every network, equilibrium, weight, norm transformation, positivity
  parameter and state box""",
  """tests sample a few networks and need Gurobi""",
  ["lyapunov.py"],
  [("value", "lyapunov.py:LyapunovHybridLinearSystem.lyapunov_value"),
   ("positivity MILP",
    "lyapunov.py:LyapunovHybridLinearSystem.lyapunov_positivity_as_milp"),
   ("1-norm encoding",
    "lyapunov.py:LyapunovHybridLinearSystem.add_state_error_l1_constraint")],
  ["optimum and maximizer of the program; sampled violations"],
  """online monitor over solver runs vs an independent numpy Lyapunov
  reference: attained-at-optimizer and dominates-all-samples checks""",
  TRUST)

P("P10", "The discrete-time decrease program is faithful for every system kind",
  """For hybrid linear, neural-network and closed-loop discrete-time systems,
  the Lyapunov decrease program's optimum is exactly the largest violation
  of the required decrease over admissible states, attained at the
  reported state. A non-positive optimum certifies that the value decreases
  at the required rate everywhere, for either direction of the rate bound and
  with or without strengthening, warm starting or relaxed binaries restored.""",
  ["inputs", "configurations", "programs"],
  """every system type, candidate, rate, bound-propagation choice and state
  box""",
  """tests use a few small systems and Gurobi; the optimum quantifies over
  every state""",
  ["lyapunov.py", "relu_system.py", "hybrid_linear_system.py",
   "feedback_system.py", "dynamic_system.py"],
  [("derivative MILP",
    "lyapunov.py:LyapunovDiscreteTimeHybridSystem.lyapunov_derivative_as_milp"),
   ("system constraint",
    "lyapunov.py:LyapunovHybridLinearSystem.add_system_constraint"),
   ("controller constraint", "feedback_system.py:add_dynamics_mip_constraint")],
  ["optimum, maximizer, sampled decrease values"],
  """online monitor over solver runs vs independent closed-loop simulation and
  Lyapunov reference; strengthened/IA/LP/MIP variants cross-checked""",
  TRUST)

P("P11", "Certificate losses and their gradients are those of the violations",
  """The positivity and decrease losses evaluated at sampled states equal the
  hinge violations, shifted by the margin, reduced as requested (mean,
  weighted mean, max, 4-norm), with their true gradient. Wherever the optimum of
  a positivity or (discrete- or continuous-time) decrease program is
  differentiable, the gradient of the recomputed optimum with respect to
  candidate, controller, dynamics and norm parameters is its derivative. The latter is claimed for non-degenerate optima and for
  bound methods whose bounds depend differentiably on the parameters.""",
  ["inputs", "configurations"],
  """every sample set, reduction mode, margin, candidate and system""",
  """tests sample a few networks; differentiability depends on the solver's
  active set""",
  ["lyapunov.py", "utils.py", "gurobi_torch_mip.py"],
  [("sample losses",
    "lyapunov.py:lyapunov_positivity_loss_at_samples"),
   ("decrease losses",
    "lyapunov.py:lyapunov_derivative_loss_at_samples_and_next_states"),
   ("reduction", "utils.py:loss_reduction")],
  ["loss tensors; autograd gradients of recomputed optima"],
  """differential monitor: losses vs numpy reference per reduction; autograd
  vs central differences of the re-solved program""",
  TRUST)

P("P12", "Region-of-attraction level sets stay inside the verified box",
  """The boundary programs are feasible exactly on the boundary of the state
  box and report its smallest (largest) Lyapunov value, attained at the
  reported state; the boundary gap is their difference. The region-of-attraction
  value is the smallest of the given bound, the value of the lowest state in
  the box with a successor outside it, and that of the lowest boundary state
  with a successor inside it. So no state of the box below that value steps
  out of the box in one step (into the given larger box), in any number of
  coordinates at once.""",
  ["inputs", "configurations"],
  """every candidate, box, equilibrium, system kind, larger box and value
  bound""",
  """the statement quantifies over the whole boundary; tests sample one or two
  networks""",
  ["lyapunov.py", "utils.py", "train_lyapunov_barrier.py"],
  [("boundary encoding", "utils.py:box_boundary"),
   ("ROA program", "lyapunov.py:_construct_milp_for_roa"),
   ("boundary gap", "train_lyapunov_barrier.py:solve_boundary_gap_mip")],
  ["optimum, minimizer; sampled boundary values"],
  """online monitor over solver runs vs dense boundary sampling and simulated
  successors with an independent Lyapunov and dynamics reference""",
  TRUST)

P("P13", "The continuous-time decrease programs are faithful",
  """For continuous-time neural-network, control-affine or hybrid linear
  systems the derivative program's optimum is the largest over the state box
  of the one-sided Lyapunov derivative plus rate times value, attained at
  the reported state; the relaxed program has no binary and bounds it from
  above. The derivative evaluated at a state is the exact set of
  one-sided directional derivatives at that state, including at kinks.""",
  ["inputs", "configurations"],
  """every candidate, system and state, including points on network kinks and
  on the norm's zero coordinates""",
  """tests sample random states which almost never hit kinks; they need
  Gurobi""",
  ["continuous_time_lyapunov.py", "relu_to_optimization.py", "utils.py"],
  [("derivative", "continuous_time_lyapunov.py:lyapunov_derivative"),
   ("program", "continuous_time_lyapunov.py:lyapunov_derivative_as_milp"),
   ("product terms", "continuous_time_lyapunov.py:add_relu_gradient_times_Aisi")],
  ["optimum, maximizer, derivative sets"],
  """online monitor vs independent subgradient/directional derivative
  reference, kinks driven explicitly""",
  TRUST)

P("P14", "Barrier value and decrease programs are faithful",
  """The barrier function's value, its extreme value over the safe or unsafe
  region and its largest decrease violation over the states of the box whose
  successor is in the box too, as reported by their programs, equal the function's true extreme values and are attained
  at reported states. The losses at samples equal the corresponding hinge
  violations, and where an optimum is differentiable the recomputed optimum's
  gradient with respect to the network parameters is its derivative.""",
  ["inputs", "configurations"],
  """every network, offset, rate, region and box""",
  """tests sample few networks and need Gurobi""",
  ["barrier.py", "train_lyapunov_barrier.py"],
  [("value program", "barrier.py:Barrier.value_as_milp"),
   ("decrease program", "barrier.py:DiscreteTimeBarrier.derivative_as_milp")],
  ["optimum, maximizer, sampled values"],
  "online monitor over solver runs vs independent barrier reference", TRUST)

P("P15", "Control-affine system encodings equal the system's f and G",
  """For each control-affine system the mixed-integer constraints admit, at
  every state in the box, exactly the drift and input matrix the system
  reports, the reported dynamics are drift plus input matrix times input, and
  the returned bounds contain them and are no looser than the declared bound
  method's. The encodings carry the derivatives with
  respect to the model's parameters. Fitting such a model to samples descends
  the error of the model shifted to vanish at the given equilibrium.""",
  ["inputs", "configurations"],
  """every linear / second-order / network-based system, box, state and
  input""",
  "tests check a few states of a few systems and need Gurobi",
  ["control_affine_system.py"],
  [("linear", "control_affine_system.py:LinearSystem.mixed_integer_constraints"),
   ("second order",
    "control_affine_system.py:SecondOrderControlAffineSystem.mixed_integer_constraints")],
  ["feasible f and G entries at fixed states"],
  "online monitor over solver runs vs the systems' own f, G and numpy refs",
  TRUST)

P("P16", "Hybrid linear systems: encoding, simulation and mode agree",
  """For a piecewise-affine system the mode containing a state (and input), the
  simulated next state, the set of possible next states and the mixed-integer
  constraints all describe the same map, with every containing mode's value
  admitted on shared boundaries. States outside every mode are rejected, and
  returned derivative bounds contain all values. When asked to check, an
  unbounded mode is refused and leaves the system as it was.""",
  ["inputs", "configurations", "programs"],
  """every partition, dynamics, state, input and boundary point""",
  "tests use two or three fixed partitions and need Gurobi",
  ["hybrid_linear_system.py"],
  [("encoding", "hybrid_linear_system.py:mixed_integer_constraints"),
   ("simulation", "hybrid_linear_system.py:step_forward"),
   ("bounds", "hybrid_linear_system.py:mode_derivative_bounds")],
  ["feasible next states at fixed (x,u); simulated values"],
  "online monitor: solver-feasible next states vs numpy PWA reference", TRUST)

P("P17", "Neural-network dynamics: encoding equals simulation, equilibrium exact",
  """For every neural-network dynamical system, the constraints added to a
  program admit at each state and input in the box exactly the simulated next
  state, single and batched simulation agree, and declared bounds contain
  it. Systems with a prescribed equilibrium map the equilibrium (and its
  input) exactly to itself, second-order systems obey their position
  update rule, and the encodings carry the derivatives with respect to the
  network parameters.""",
  ["inputs", "configurations"],
  "every network, equilibrium, system type, state, input and box",
  "tests compare at a handful of states and need Gurobi",
  ["relu_system.py"],
  [("step", "relu_system.py:step_forward"),
   ("encoding", "relu_system.py:add_dynamics_constraint")],
  ["feasible next state at fixed (x,u); batched vs single steps"],
  """online monitor over solver runs vs numpy reference of the documented
  dynamics formula""", TRUST)

P("P18", "Closed-loop controllers respect limits and match their encoding",
  """A feedback controller's output always lies within the input limits, equals
  the saturated network (or linear) law shifted to give the equilibrium input
  at the equilibrium state, and the closed-loop constraints admit exactly the
  simulated closed-loop step. Bounds on the control derived for the program
  contain every control value over the box, and the encodings carry the
  derivatives with respect to the controller's parameters.""",
  ["inputs", "configurations"],
  """every forward system, controller, limits (also when the equilibrium or all
  pre-saturation values lie beyond a limit), state and bound method""",
  "tests sample a few controllers and need Gurobi",
  ["feedback_system.py", "utils.py"],
  [("control law", "feedback_system.py:FeedbackSystem.compute_u"),
   ("encoding", "feedback_system.py:add_dynamics_mip_constraint"),
   ("saturation", "feedback_system.py:_add_input_saturation_constraint")],
  ["compute_u output; feasible (u, x_next) at fixed x"],
  "online monitor over solver runs vs numpy closed-loop reference", TRUST)

P("P20", "Cost-to-go and partition helpers match their definition",
  """The discrete-time cost-to-go of a trajectory is the sum of stage costs
  along the simulated trajectory until the horizon or the goal is reached (a
  trajectory leaving the modes is rejected and excluded from the samples), and
  the continuous-time one integrates the dynamics and cost. The
  generated partition of a state-input box covers it with boxes containing
  their centres, and samples carry the cost-to-go of their state.""",
  ["inputs", "configurations"],
  "every system, cost, initial state, horizon and partition size",
  "tests check one or two systems",
  ["hybrid_linear_system.py"],
  [("discrete", "hybrid_linear_system.py:compute_discrete_time_system_cost_to_go"),
   ("continuous",
    "hybrid_linear_system.py:compute_continuous_time_system_cost_to_go"),
   ("samples", "hybrid_linear_system.py:generate_cost_to_go_samples"),
   ("partition", "hybrid_linear_system.py:partition_state_input_space")],
  ["returned costs, samples, mode list"],
  "trace oracle: independent simulation of the trajectory", TRUST0)

P("P21", "Training reports success only with a certificate that really holds",
  """When training reports success, the returned candidate (and controller)
  satisfies positivity over the whole box, and decrease at every state whose
  successor stays in the box, up to the configured tolerances, the losses reported equal those recomputed at the returned
  parameters, and parameters not selected for search are unchanged. The total
  loss is the weighted sum of its configured parts, and adversarial states
  appended come from the solved programs.""",
  ["histories", "configurations", "inputs"],
  "every training history: initial networks, options, sample sets, budgets",
  """tests run one or two short training runs with Gurobi and look at
  shapes""",
  ["train_lyapunov_barrier.py"],
  [("total loss", "train_lyapunov_barrier.py:Trainer.total_loss"),
   ("loop", "train_lyapunov_barrier.py:Trainer.train"),
   ("adversarial loop", "train_lyapunov_barrier.py:Trainer.train_adversarial"),
   ("clustering",
    "train_lyapunov_barrier.py:_cluster_adversarial_states")],
  ["training return value, module parameters before/after, re-verified "
   "certificate by dense sampling"],
  """history monitor: real training runs are watched; success is re-judged by
  independent dense sampling and re-solved programs""", TRUST)

P("P22", "Parameter snapshots and gradient projection in training",
  """Saving and restoring training parameters reproduces exactly the same
  trainable values and leaves training able to continue; descent on samples
  ends at the best parameters it has seen. The projected
  gradient is the documented combination of the two losses' gradients: never
  increasing (to first order) the loss it must protect.""",
  ["inputs", "histories"],
  "every network, pair of losses and projection mode; every snapshot history",
  "tests use one network and two losses",
  ["train_utils.py", "train_lyapunov_barrier.py", "utils.py"],
  [("projection", "train_utils.py:project_gradient"),
   ("snapshot",
    "train_lyapunov_barrier.py:Trainer._get_current_training_params")],
  ["parameter gradients after projection; parameters after restore"],
  "differential monitor vs explicit numpy projection of separate gradients",
  TRUST0)

P("P23", "Norm-transformation options give matrices of the promised structure",
  """Every option for the norm transformation yields a matrix of the promised
  structure for all parameter values: positive definite with the promised
  margin, singular values within their bounds, free, or constant. Setting the
  option from a matrix and reading it back round-trips, its trainable
  variables determine the matrix differentiably, and fixed ones never
  change.""",
  ["inputs", "histories"],
  "every size, matrix, margin and parameter update",
  "tests check two or three matrices",
  ["r_options.py"],
  [("SPD", "r_options.py:SearchRwithSPDOptions"),
   ("SVD", "r_options.py:SearchRwithSVDOptions"),
   ("free", "r_options.py:SearchRfreeOptions"),
   ("fixed", "r_options.py:FixedROptions")],
  ["returned matrix, variables, after random updates"],
  """state monitor on the matrix after randomized set/update histories
  (eigenvalues/singular values), gradcheck""", TRUST0)

P("P24", "Line-search optimizers accept only sufficient decrease",
  """Each step of the line-search gradient-descent and line-search Adam
  optimizers moves the parameters along the method's direction with a step
  from its shrinking sequence, and the accepted point satisfies the documented
  decrease condition or is the one tried at the minimum step. The closure sees
  exactly the parameters being tried, and with a full first step the Adam
  iterates equal standard Adam with the same options.""",
  ["inputs", "histories", "configurations"],
  """every objective, parameter grouping, option set (momentum, weight decay,
  amsgrad, reduction) and step history""",
  "one test per optimizer on one quadratic",
  ["line_search_gd.py", "line_search_adam.py"],
  [("GD step", "line_search_gd.py:LineSearchGD.step"),
   ("Adam step", "line_search_adam.py:LineSearchAdam.step")],
  ["parameters at every closure call, returned loss, optimizer state"],
  """event-log monitor: every closure call's parameters are recorded and
  checked against a reference automaton of the line search; Adam vs
  torch.optim.Adam""", TRUST0)

P("P25", "The held-control integrator is the classical fourth-order scheme",
  """Integrating with a held control returns the state after exactly the
  requested number of classical fourth-order Runge-Kutta steps, all under the
  one control computed at the initial state, together with that control. It
  is therefore exact for linear dynamics to fourth order in the step and
  fourth-order accurate otherwise, and neither modifies the initial state nor
  depends on earlier calls.""",
  ["inputs", "configurations"],
  "every dynamics, controller, initial state, step size and number of steps",
  "two fixed tests with loose tolerance",
  ["integrator.py"],
  [("rk4", "integrator.py:rk4_constant_control")],
  ["returned state and control; log of dynamics/controller calls"],
  """event-log monitor of every dynamics/controller call plus convergence-order
  and independent Butcher-tableau reference""", TRUST0)

P("P26", "Roll-pitch-yaw conversions give true rotations and exact derivatives",
  """The matrix built from roll-pitch-yaw is orthogonal with determinant one
  and equals yaw-about-z times pitch-about-y times roll-about-x, for numpy
  and torch inputs alike. The returned derivative equals the matrix's true
  partial derivatives.""",
  ["inputs"],
  "every angle triple including large and gimbal-lock angles",
  "tests check a few angles",
  ["geometry_transform.py"],
  [("rotation", "geometry_transform.py:rpy2rotmat"),
   ("gradient", "geometry_transform.py:rpy2rotmat_gradient")],
  ["returned matrices/derivatives"],
  "invariant monitor vs elementary-rotation reference and complex-step "
  "derivatives", TRUST0)

P("P27", "Encoders and decoders preserve shapes, ranges and batch independence",
  """Every encoder maps a batch of images of the declared size to a mean and a
  log-variance of the latent size, and every decoder maps latents to images
  of the declared size with pixels between zero and one. In evaluation mode
  each batch element's result depends only on that element, and all
  parameters take part in the result.""",
  ["inputs", "configurations"],
  """every image size with sides divisible by four (the strides of the
  convolutional pairs), latent size, colour mode, batch size and input""",
  "one test runs four pairs on a single size",
  ["encoders.py"],
  [("encoders", "encoders.py:LinearEncoder1"),
   ("CNN", "encoders.py:CNNEncoder2"), ("decoders", "encoders.py:CNNDecoder2")],
  ["outputs of the modules"],
  "invariant monitor over generated configurations; metamorphic batch and "
  "gradient-flow checks; independent functional forward pass", TRUST0)

P("P28", "Spring-loaded inverted pendulum simulation obeys its physics",
  """In flight and stance the simulated pendulum conserves mechanical energy,
  transitions preserve position, velocity and energy, and touchdown and
  lift-off happen exactly at their guards. The apex map is the composition of
  these phases, and every published gradient equals the true derivative of
  its map.""",
  ["inputs", "histories"],
  "every mass, length, stiffness, apex state and leg angle",
  "tests check few states with loose tolerance and need Gurobi to import",
  ["spring_loaded_inverted_pendulum.py"],
  [("simulation", "spring_loaded_inverted_pendulum.py:SLIP.simulate"),
   ("apex map", "spring_loaded_inverted_pendulum.py:SLIP.apex_map"),
   ("gradients",
    "spring_loaded_inverted_pendulum.py:SLIP.apex_to_apex_gradient")],
  ["trajectories, energies, event states, gradients"],
  "invariant (energy/guard) monitor over simulated traces, finite-difference "
  "oracle for gradients", TRUST0)

P("P29", "The hybrid linear approximation of the pendulum is its linearization",
  """The linear approximation of the apex map reproduces the map and travel
  time exactly at the linearization point and to first order around it, and
  its polyhedron contains exactly the states and angles for which touchdown
  lands on the stepping stone, to first order. Unreachable stones give no
  mode.""",
  ["inputs"],
  "every apex state, leg angle and stepping stone",
  "one test with a fixed point",
  ["slip_hybrid_linear_system.py", "spring_loaded_inverted_pendulum.py"],
  [("approximation",
    "slip_hybrid_linear_system.py:apex_map_linear_approximation")],
  ["returned matrices and polyhedron"],
  "finite-difference/first-order oracle on the nonlinear map", TRUST0)

P("P30", "Network parameters round-trip through vectors, structures and files",
  """Extracting a network's parameters to a vector and writing them back, or
  rebuilding it from its structure, parameters or a saved file, yields the
  identical function, with weights, biases and slopes in the documented order.
  Reading gradients as a vector follows the same order, and zeroing gradients
  leaves parameters unchanged.""",
  ["inputs", "configurations", "histories"],
  "every width list, bias option, slope and parameter vector",
  "tests use one or two networks",
  ["utils.py"],
  [("setup", "utils.py:setup_relu"), ("update", "utils.py:update_relu_params"),
   ("extract", "utils.py:extract_relu_parameters"),
   ("structure", "utils.py:extract_relu_structure"),
   ("save", "utils.py:save_lyapunov_model")],
  ["parameter vectors, network outputs, files in a scratch folder"],
  "round-trip monitor over generated networks with an independent forward "
  "pass", TRUST0)

P("P31", "Samplers and geometric helpers stay in and cover their sets",
  """Points sampled in a box or on its boundary have the requested count and
  type, lie in the box (respectively on a face) and reach every part of it.
  Mesh samples enumerate the full grid once, projection onto a polyhedron is
  the nearest feasible point, boundedness tests and Minkowski sums are
  exact.""",
  ["inputs", "configurations"],
  "every box, count, grid size and polyhedron",
  "tests check a few boxes",
  ["utils.py"],
  [("box", "utils.py:uniform_sample_in_box"),
   ("boundary", "utils.py:uniform_sample_on_box_boundary"),
   ("grid", "utils.py:get_meshgrid_samples"),
   ("projection", "utils.py:project_to_polyhedron"),
   ("bounded", "utils.py:is_polyhedron_bounded"),
   ("Minkowski", "utils.py:minkowski_sum")],
  ["returned samples / points"],
  "membership, coverage and optimality monitor (independent QP/LP "
  "reference)", TRUST)

P("P32", "Returned subgradient sets are exactly the one-sided gradients",
  """The gradients returned for the 1-norm, the infinity-norm and a ReLU
  network are exactly the one-sided gradients possible at the point: the
  unique gradient at smooth points, and every extreme choice at kinks within
  the requested tolerance. None is missing or spurious.""",
  ["inputs", "configurations"],
  "every vector/network/point including exact ties, and every tolerance",
  "tests check a few vectors",
  ["utils.py", "relu_to_optimization.py"],
  [("l1", "utils.py:l1_gradient"), ("linf", "utils.py:l_infinity_gradient"),
   ("relu", "utils.py:relu_network_gradient")],
  ["returned gradient stacks"],
  "set-equality monitor vs brute-force one-sided gradients", TRUST0)

P("P33", "The piecewise-linear Lyapunov synthesis returns a valid function",
  """Whenever the synthesis program is feasible, the piecewise-linear function
  returned is positive away from the origin by the requested margin, decreases
  along each mode's dynamics by the requested rate, and is continuous across
  declared common faces. Added constraints admit every function satisfying
  those conditions at the vertices.""",
  ["inputs", "configurations"],
  "every partition into polytopes, dynamics and margins",
  "one test on one partition",
  ["simple_pwl_lyapunov.py"],
  [("derivative",
    "simple_pwl_lyapunov.py:add_lyapunov_derivative_in_mode"),
   ("positivity",
    "simple_pwl_lyapunov.py:add_lyapunov_positivity_in_mode"),
   ("continuity", "simple_pwl_lyapunov.py:add_continuity_constraint"),
   ("solve", "simple_pwl_lyapunov.py:solve")],
  ["solved coefficients; constraint membership of sampled coefficient sets"],
  "membership oracle on sampled coefficients plus re-check of solved "
  "functions", TRUST)

P("P34", "Dynamics-learning losses, rollouts and checkpoints are consistent",
  """Losses for dynamics, reconstruction, latent divergence and Lyapunov
  violation equal their documented formulas on every batch, rollouts iterate
  the learned model step by step, training follows the gradients of these
  losses, and a saved model loads to the same predictions. Training saves the
  networks every save_rate epochs and at its end, also when interrupted from
  the keyboard, and each such file holds the networks of that moment. The
  Lyapunov part of the objective includes the worst violations found by the
  programs, weighted as configured.""",
  ["inputs", "configurations", "histories"],
  "every batch, horizon, network and option set",
  "tests only look at shapes on one configuration and need Gurobi",
  ["dynamics_learning.py"],
  [("losses", "dynamics_learning.py:LatentSpaceDynamicsLearning"),
   ("lyapunov loss", "dynamics_learning.py:DynamicsLearning.lyapunov_loss"),
   ("rollout", "dynamics_learning.py:StateSpaceDynamicsLearning.rollout")],
  ["loss tensors, rollouts, checkpoint files in a scratch folder"],
  "differential monitor vs independent formulas", TRUST)

P("P35", "Linear-program cost and other optimization helpers are exact",
  """The linear-program cost function returns the program's optimal value and
  its derivative, and the early-termination callback stops a solve only after
  an incumbent beyond the threshold has been found, never changing whether
  the optimum exceeds it. The trajectory-optimization cost matrices
  and the regression helpers (each sample once per epoch, Adam on the stated
  loss) do what they document.""",
  ["inputs", "schedules"],
  "every feasible program, threshold, and incumbent order",
  "tests check a few programs",
  ["utils.py"],
  [("LP cost", "utils.py:linear_program_cost"),
   ("callback", "utils.py:get_gurobi_terminate_if_callback"),
   ("cost", "utils.py:get_simple_trajopt_cost")],
  ["cost, gradient; incumbent trajectories injected by the solver stand-in"],
  "differential monitor vs independent LP; injected incumbent schedules",
  TRUST)

P("P36", "Example dynamics: one physics in every representation",
  """For each example plant the numpy and torch dynamics agree, single and
  batched evaluations agree, the declared equilibrium is a zero of the
  dynamics, and the linearized dynamics are the true Jacobians. Rewards,
  controllers derived from them (LQR) and state transformations match their
  definitions, and physical invariants (energy without input or damping)
  hold.""",
  ["inputs"],
  "every state, input and physical parameter",
  "tests check one or two points per plant",
  ["examples/rocket/rocket.py", "examples/pendulum/pendulum.py",
   "examples/quadrotor2d/quadrotor_2d.py", "examples/quadrotor3d/quadrotor.py",
   "examples/car/unicycle.py", "examples/car/acceleration_car.py",
   "examples/pole/pole.py"],
  [("rocket", "examples/rocket/rocket.py:dynamics"),
   ("pendulum", "examples/pendulum/pendulum.py:dynamics"),
   ("quadrotors", "examples/quadrotor3d/quadrotor.py:dynamics")],
  ["dynamics values, linearizations"],
  "invariant monitor: numpy/torch/batch agreement, Jacobian oracle, energy "
  "balance, independent equations of motion", TRUST0)

P("P37", "Generated simulation data sets are faithful and reproducible",
  """A generated sample or rollout shows the physics engine's state at the
  requested start, control and time steps: the stored next state is the
  simulation of the stored state, and images are normalized to the declared
  shape and range with current frame after the previous one. Data sets hold
  the requested number of samples within the requested bounds, and rollouts of
  one step equal samples.""",
  ["inputs", "configurations", "histories"],
  "every start state, control, time step, image size and data-set request",
  "tests only look at shapes on one robot",
  ["pybullet_data_generation.py", "worlds.py"],
  [("sample", "pybullet_data_generation.py:generate_sample"),
   ("rollout", "pybullet_data_generation.py:generate_rollout"),
   ("dataset", "pybullet_data_generation.py:generate_dataset")],
  ["returned tensors; physics-engine state read back"],
  "differential monitor vs an independently driven physics engine; "
  "reproducibility and bounds monitors", TRUST0)


P("P38", "Value pre-training fits the candidate to the cost-to-go it was given",
  """Fitting the candidate to sampled cost-to-go descends, within the requested
  number of epochs, the mean squared difference between the candidate's value
  and the samples; it stops with success as soon as that error is within the
  tolerance, then leaving the parameters that attain it, and otherwise reports
  failure with an error above the tolerance. The samples built from a system
  carry the cost summed along its own simulation.""",
  ["inputs", "configurations", "histories"],
  "every network, sample set, norm matrix, weight and stopping option",
  "tests only fit one data set and never check what was minimized",
  ["train_lyapunov_barrier.py"],
  [("fit", "train_lyapunov_barrier.py:TrainValueApproximator."
    "train_with_cost_to_go"),
   ("from_system", "train_lyapunov_barrier.py:TrainValueApproximator.train")],
  ["network parameters at every evaluation, returned error"],
  "online monitor of the parameters along the fit vs an independent model of "
  "the loss and of one optimizer step", TRUST0)


P("P39", "The bound program between value function and network is exact",
  """For any mixed-integer quadratic cost-to-go problem, ReLU network and box of
  states, the generated mixed-integer quadratic program is feasible at exactly
  the states of the box where the cost-to-go is defined, and its least
  objective at a state is the cost-to-go minus the network's output. Minimized
  over the state as well it is therefore a lower bound of that difference over
  the whole box, attained at its minimizer; the objective keeps its gradient
  with respect to the network's output layer.""",
  ["inputs", "configurations", "programs"],
  "every value function, network, box and state",
  "the module has no test at all: it imports a module that was removed",
  ["model_bounds.py"],
  [("program", "model_bounds.py:ModelBounds.epsilon_opt")],
  ["optimum of the returned program, free and with the state fixed"],
  "online monitor over solver runs of the generated program vs an independent "
  "active-set evaluation of the cost-to-go and a numpy forward pass",
  TRUST + "The missing class ValueFunction is supplied by the harness.")


P("P40", "Adversarial value training and its random baseline are a fair pair",
  """Both networks start equal; at every training step each descends the mean
  squared error over distinct samples of its own buffer, every sample carrying
  the cost-to-go of its own state, and exactly the requested steps are taken
  and logged. Every sampling round adds all states of the requested number of
  successful adversarial searches against the current network to one buffer,
  as many random (or limit) states of the box to the other and the same extra
  states to both, discarding the oldest samples and only when the buffer would
  overflow. Without the baseline the same holds and the baseline stays
  untouched.""",
  ["inputs", "configurations", "histories"],
  """every value function (with states it rejects), initial data, option set,
  number of consecutive training calls""",
  "the module has no test at all: it imports modules that were removed",
  ["train_value.py"],
  [("training", "train_value.py:AdversarialWithBaseline.train"),
   ("training alone",
    "train_value.py:AdversarialWithBaseline.train_no_benchmark"),
   ("sampling", "train_value.py:AdversarialWithBaseline.get_limit_samples"),
   ("snapshot", "train_value.py:AdversarialWithBaseline.get_state")],
  ["every optimizer step, value evaluation, adversarial search, buffer and "
   "logged value of a training history"],
  "online trace monitor of whole training histories vs a reference of the "
  "buffers, the gradients and the optimizer",
  TRUST0 + "The missing value function and adversarial generator are supplied "
  "by the harness.")


P("P41", "Planning and learning examples: trees, cost tables and TD3 runs",
  """A tree grown by RRT* stays a tree rooted at the goal whose costs add up
  along drivable edges with paths that join their ends, every node joins
  through its best neighbour and no rewiring makes any node worse; the
  collocation program accepts exactly the drivable trajectories; the duplicated
  cost table equals the complete one and value iteration ends at the Bellman
  fixed point with a greedy policy. A TD3 run stores exactly what happened,
  keeps the latest transitions, descends the clipped double-Q and policy
  losses, moves the targets by the averaging rule after policy steps only, and
  acts inside the action bounds.""",
  ["inputs", "configurations", "histories"],
  "every history of tree extensions, cost table, trajectory and learning run",
  "none of these files has a test",
  ["examples/car/rrt_star.py", "examples/car/unicycle_traj_opt.py",
   "examples/car/value_iteration.py", "examples/rl/td3.py",
   "examples/quadrotor2d/quadrotor2d_env.py"],
  [("tree", "examples/car/rrt_star.py:RrtStar.connect_state_extend"),
   ("cost table", "examples/car/value_iteration.py:calculate_r_duplicate"),
   ("value iteration", "examples/car/value_iteration.py:value_iteration"),
   ("learner", "examples/rl/td3.py:td3")],
  ["every tree operation, recorded program, table entry, environment event, "
   "optimizer step and target network"],
  "online trace monitor of tree operations and learning runs; differential "
  "monitor of tables, programs and fixed points vs references of the harness",
  TRUST + "pydrake and gym are replaced by recording stand-ins.")


CLAIMED = [p["id"] for p in PROPS]
NA = {}


def main():
    have = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, "checks"))
                  if f.endswith(".py"))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {k: v for k, v in p.items() if not k.startswith("_")}
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in have:
            cmd = "/opt/venv/bin/python checks/%s.py" % p["id"]
            checks.append({
                "property": p["id"], "quick_cmd": cmd,
                "thorough_cmd": cmd + " --thorough",
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["_technique"], "level": "exploration",
                "level_note": p["_note"]})
        else:
            na.append({"property": p["id"],
                       "reason": NA.get(p["id"], "check not built yet")})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py",
         "hooks": {"guard": "NONE", "enable": "no hook is added to /repo: the "
                   "monitors observe through the public API, through the "
                   "solver stand-in in shim/gurobipy.py and through "
                   "subclasses/closures created by the harness",
                   "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Exit 2 means inconclusive (too few cases "
         "judged)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
