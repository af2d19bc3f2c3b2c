#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the committed files are its output)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ODE, CH, SOL = "pyoptmat/ode.py", "pyoptmat/chunktime.py", "pyoptmat/solvers.py"
MOD, FL, HA, DA = (f"pyoptmat/{x}.py" for x in ("models", "flowrules", "hardening", "damage"))
TE, SC, EX, OP = (f"pyoptmat/{x}.py" for x in ("temperature", "scaling", "experiments", "optimize"))
UT, NO = "pyoptmat/utility.py", "pyoptmat/neuralode.py"

# id, title, statement, over, text, why, files, mechanisms [(name, where)], observe_at, level note
P = []


def add(pid, title, statement, over, text, why, mech, observe, note):
    """One property"""
    files = sorted({w.split(":")[0] for _, w in mech})
    P.append(dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None), note=note))


add("P01", "Trajectories satisfy the discretised equations",
    "Every trajectory which the implicit or explicit Euler integration returns without reporting a failure starts "
    "at the given initial state and fulfils, at every step and for every batch member, the backward (or forward) "
    "Euler equation between neighbouring times to within the requested tolerances. This holds for every time grid "
    "(non-uniform, different for every member, repeated times, a single time), every block size, and also if some "
    "members of the batch converge much later than others. Smooth dissipative systems are solved instead of being "
    "reported as failures.",
    "inputs configurations", "systems of equations, initial states, time grids, batch and block sizes, solver options",
    "The tests integrate a handful of systems on uniform grids and compare with analytic solutions to percent accuracy.",
    [("block-wise residual and Jacobian of the schemes", ODE + ": BackwardEuler, ForwardEuler"),
     ("time stepping in blocks", ODE + ": FixedGridBlockSolver.integrate"),
     ("Newton iteration on a block", CH + ": newton_raphson_chunk")],
    ["returned trajectory", "rates of the user's system re-evaluated at the returned states"],
    "an independent residual evaluation and an independent step by step integrator judge every step of every run")
add("P02", "Solver options do not change the answer",
    "For a system whose discrete equations have one solution, the trajectory and all the gradients are the same, to "
    "within the solver tolerance, for every block size, linear solution method, direct solver (and its switch over "
    "size) and initial guess strategy. Unknown option values are rejected with an exception instead of being silently "
    "replaced.",
    "configurations inputs", "all combinations of options over random systems and grids, both ways of differentiation",
    "The tests use a few block sizes which mostly divide the number of steps and one option at a time.",
    [("option handling", ODE + ": FixedGridBlockSolver.__init__"), ("direct solvers", CH + ": Bidiagonal*Factorization"),
     ("start of the iteration", ODE + ": FixedGridBlockSolver._initial_guess"),
     ("adjoint pass in blocks", ODE + ": FixedGridBlockSolver.rewind")],
    ["trajectories and gradients of the same problem under five option sets"],
    "differential oracle between option sets")
add("P03", "Members of a batch do not influence each other",
    "Integrating any selection, permutation or replication of the members of a batch (with their own parameters, times "
    "and loads) gives each member the same trajectory and gradient as in the full batch, and evaluating the rates of a material for any selection of states gives each the same rates and Jacobians. This also holds for simulated "
    "material tests under strain, stress or mixed control, and a member whose solve breaks down with values that are "
    "not numbers does not change the other members.",
    "inputs configurations", "batches of systems or material tests, selections of their members, broken members",
    "The tests only use whole batches, mostly of identical members.",
    [("batched operators", CH + ": newton_raphson_chunk, Bidiagonal*"), ("per test loads", MOD + ": ModelIntegrator, BothBasedModel")],
    ["trajectories and gradients of batch and selection"], "metamorphic oracle: batch against selection")
add("P04", "Causality and restart",
    "States up to a time depend neither on later times nor on later loads, and cutting off the rest of the times leaves "
    "them as they are. Continuing an integration from any of its own states, with the same or other solver options, "
    "gives the remaining trajectory, and a repeated time repeats the state.",
    "histories inputs", "cut points, altered futures, chains of restarts, repeated times, all options and control modes",
    "The tests never restart an integration or vary only its end.",
    [("stepping", ODE + ": FixedGridBlockSolver.integrate"), ("interpolated loads", MOD + ": ModelIntegrator")],
    ["trajectories with altered futures and of continued runs"], "metamorphic oracle over histories")
add("P05", "Gradients are the exact derivatives of the discrete solution",
    "Differentiating any loss of a returned trajectory, by the adjoint method or by backpropagation through the "
    "solver, gives the derivative of the exactly solved discrete equations with respect to the trainable parameters "
    "of the system, extra parameters passed along, and the initial state, including parameters which are shared, "
    "frozen, unused, named repeatedly or themselves computed. For complete material models under strain, stress and mixed control both "
    "ways agree with each other and with finite differences of the simulation.",
    "inputs configurations", "systems, losses, parameter roles, options; material models with temperature dependent parameters",
    "The tests check two or three models with all parameters used, a fixed loss (the norm) and loose tolerances.",
    [("adjoint pass", ODE + ": FixedGridBlockSolver.rewind, IntegrateWithAdjoint.backward"),
     ("update at the solution", CH + ": newton_raphson_chunk"), ("analytic Jacobians", MOD + ": forward methods")],
    ["gradients of random losses", "implicit function derivative of an independent integrator", "finite differences"],
    "oracle: implicit function theorem on an independently computed discrete solution; material models by finite differences")
add("P06", "A gradient belongs to its own forward pass",
    "In any sequence of forward and backward passes over shared systems and initial states, each backward pass "
    "contributes exactly the gradient of its own forward pass: other integrations in between, repeated backward passes "
    "over a retained graph, several losses of one trajectory, joint losses over several trajectories and parameter "
    "updates between training steps leave it correct, work of the caller on the returned trajectory in place is either "
    "accounted for or rejected, and accumulated gradients are the sums.",
    "histories", "random interleavings of forward, backward and no-gradient passes, retained graphs, optimisation steps",
    "The tests do one forward and one backward pass.",
    [("state kept between passes", ODE + ": IntegrateWithAdjoint"), ("cached solution", ODE + ": FixedGridBlockSolver")],
    ["accumulated gradients after every operation"], "online monitor: after every operation all accumulated gradients are judged")
add("P07", "A failed implicit solve is signalled",
    "Whenever an integration returns states which do not solve the discrete equations to the requested tolerance "
    "(no solution exists, a rate is infinite or not a number for any member at any time, or the iteration limit is too "
    "small), a warning is given, or an exception is raised if exceptions were requested. If the equations were solved "
    "for a well behaved problem there is neither a warning nor an exception.",
    "fault_sequences inputs configurations", "unsolvable steps, poisoned rates at random members and times, small iteration limits",
    "The tests contain no failing solve.",
    [("end of the iteration", CH + ": newton_raphson_chunk"), ("option", ODE + ": throw_on_fail")],
    ["warnings and exceptions", "independent residual of the returned states"],
    "fault injection; an independent residual decides which runs must be signalled")
add("P08", "Block bidiagonal operators and their direct solvers",
    "For every number of blocks, batch size, block size and memory layout, each of the direct solvers for batched "
    "lower block bidiagonal systems returns the solution of the system, repeatedly for several right hand sides and "
    "also through the operator interface on flattened vectors, without changing the matrix or the right hand side. "
    "The forward operator multiplies with the same matrix as its dense form, its inverse undoes it, and derivatives of the "
    "solution with respect to all the blocks and the right hand side are exact.",
    "inputs configurations", "1 to 65 blocks, all remainders of the cyclic reduction, switch over sizes, layouts, pivoting blocks",
    "The tests use one fixed size per solver with random well scaled blocks.",
    [("Thomas", CH + ": thomas_solve"), ("parallel cyclic reduction", CH + ": BidiagonalPCRFactorization"),
     ("hybrid", CH + ": BidiagonalHybridFactorization"), ("forward operator", CH + ": BidiagonalForwardOperator")],
    ["solutions, products, derivatives, operands after the call"], "oracle: dense linear algebra")
add("P09", "Sparse block diagonal matrices agree in all their formats",
    "A batched block diagonal matrix given by any set of diagonals (any order, above and below the main diagonal, "
    "missing ones, any number of blocks, batch and block sizes) is the same matrix in its dense, batched coordinate "
    "and unrolled compressed row formats, and has the reported size and number of entries.",
    "inputs", "sets of diagonals and sizes", "The tests check one pattern.",
    [("formats", CH + ": SquareBatchedBlockDiagonalMatrix")], ["the three formats"],
    "oracle: independent dense assembly")
add("P10", "Small batched linear and nonlinear solvers",
    "The batched linear solvers (direct, Jacobi and LU preconditioned and plain GMRES) solve the systems they are given, whatever the "
    "batch, also if single members start out solved, and the nonlinear solvers (Newton with and without line search, "
    "with reused preconditioners) return a point which fulfils the convergence criterion or give a warning. Newton with line search also solves monotone systems on which plain "
    "Newton steps overshoot and diverge, whatever the state of the other members of the batch. None of them "
    "changes its arguments.",
    "inputs configurations fault_sequences", "random systems, batch sizes, starting points, tolerances, iteration limits, unsolvable members",
    "The tests solve one random problem per solver.",
    [("Newton", SOL + ": newton_raphson, newton_raphson_bt"), ("GMRES", SOL + ": gmres"),
     ("reuse", SOL + ": PreconditionerReuseNonlinearSolver")],
    ["solutions, residuals, warnings, arguments after the call"], "oracle: residuals and dense reference")
add("P11", "Derivatives of the constitutive components",
    "Every derivative reported by a flow rule, hardening model or damage model is the derivative of the rate or value the "
    "same object reports, for all states (below and above yield, tension and compression, any history), temperatures, strain "
    "rates, leading batch dimensions and for parameters which are temperature dependent or differ between the batch "
    "members.",
    "inputs programs", "random (nested) components at random states", "The tests check each class at one state per class with scalar parameters.",
    [("flow rules", FL), ("hardening", HA), ("damage", DA)],
    ["analytic derivatives against fourth order finite differences of the values"],
    "oracle: Richardson-checked finite differences; entries where these do not converge (kinks) are left out and counted")
add("P12", "Jacobians of complete material models",
    "The Jacobian and the strain rate derivative which a complete (damaged) material model reports are the derivatives of its "
    "state rate, and the same is true for the systems integrated under strain control, stress control and mixed control, where the controlled "
    "quantity is prescribed by the load history.",
    "inputs programs", "random models, states, loads and control modes", "The tests cover a few models at single states.",
    [("models", MOD + ": InelasticModel, DamagedInelasticModel"), ("control", MOD + ": StrainBasedModel, StressBasedModel, BothBasedModel")],
    ["Jacobians against finite differences of the rates"], "oracle: Richardson-checked finite differences")
add("P13", "Rates are the documented ones",
    "The inelastic strain rates, hardening rates and values, damage rates and state rates of complete models equal the formulas "
    "of their documentation for every state, temperature, strain rate and batch shape.",
    "inputs programs", "random (nested) components at random states and leading shapes",
    "The tests repeat the formulas at one state for scalar parameters.",
    [("flow rules", FL), ("hardening", HA), ("damage", DA), ("models", MOD)],
    ["rates and values"], "oracle: formulas written down independently")
add("P14", "Composition rules of the building blocks",
    "Superimposed flow rules and hardening models are the sums of their parts with separate histories however they are nested; "
    "regime switches and blends reduce to their parts far away from the transition and to the common model if both "
    "are the same; wrappers with neutral settings, models without damage and special cases of more general hardening models give the same rates, "
    "derivatives and simulations as the plain model.",
    "programs inputs", "pairs of equivalent compositions at random states and along simulations",
    "The tests never compare compositions.",
    [("sums", FL + ": SuperimposedFlowRule"), ("switches", FL + ": KocksMeckingRegimeFlowRule, SoftKocksMeckingRegimeFlowRule"),
     ("sums of hardening", HA + ": SuperimposedKinematicHardening"), ("no damage", DA + ": NoDamage")],
    ["all the rates and derivatives of both compositions"], "differential oracle between compositions")
add("P15", "Tension and compression are mirror images",
    "Changing the sign of stress, strain rate and kinematic hardening variables changes the sign of the inelastic strain, stress and kinematic rates and "
    "leaves isotropic hardening and damage rates as they are, with the corresponding derivatives. Simulated tests under mirrored "
    "loads have mirrored responses in every control mode.",
    "inputs histories", "random components, models and load histories", "The tests use tension, or random signs without their mirror images.",
    [("flow rules", FL), ("hardening", HA), ("damage", DA), ("control", MOD)], ["values at mirrored states, mirrored simulations"],
    "metamorphic oracle")
add("P16", "Physical bounds of the constitutive response",
    "Inelastic flow follows the sign of the effective stress, grows with it and vanishes inside the yield surface, and damage never heals. Along simulated histories "
    "isotropic hardening (without recovery) stays between zero and its saturation value and does not decrease, each backstress stays within its "
    "saturation value, inelastic dissipation is not negative and damage does not decrease. "
    "Loads below the yield stress give a linear elastic response without any trace in the history, and without loads nothing happens.",
    "inputs histories", "random states and load histories with reversals, holds and repeated times in every control mode",
    "The tests contain no bounds.",
    [("flow rules", FL + ": IsoKinViscoplasticity"), ("hardening", HA), ("damage", DA), ("integration", MOD + ": ModelIntegrator")],
    ["states and simulated histories"], "trace monitors over simulated histories (bounds, monotonicity, dissipation)")
add("P17", "Strain, stress and mixed control describe the same material",
    "Prescribing the stress response of a strain controlled simulation gives back its strains and internal history. In a set of tests with "
    "mixed control every test responds as it does in a purely strain or stress controlled simulation, whatever the assignment of controls.",
    "inputs configurations", "random models, histories and assignments of control modes", "The tests compare one model and one history.",
    [("stress control", MOD + ": StressBasedModel"), ("mixed control", MOD + ": BothBasedModel")],
    ["responses under different control"], "differential oracle between control modes")
add("P18", "Simulated tests satisfy the discretised constitutive equations",
    "Every step of a strain, stress or mixed control simulation returned without a reported failure starts from the virgin state and "
    "satisfies the backward Euler form of the documented constitutive equations with the prescribed loads, temperatures and times of its own test at the end of the step.",
    "inputs histories configurations", "random models, temperature dependent and per-test parameters, load and temperature histories, options",
    "The tests compare with stored or analytic solutions of a few models.",
    [("load interpolation", MOD + ": ModelIntegrator.solve_*"), ("control", MOD + ": StrainBasedModel, StressBasedModel, BothBasedModel"),
     ("solver", ODE)], ["all the steps of the returned histories"],
    "oracle: independently written constitutive equations evaluated at the returned states")
add("P19", "Invariances in time",
    "Shifting all the times of a test by a constant, however large, does not change its response under any control. Models declared rate independent give the same response however "
    "time is stretched, and for viscoplastic models without recovery stretching time by a factor equals changing the viscosity accordingly.",
    "inputs histories", "random shifts and stretches per test, models and histories", "The tests start every history at time zero.",
    [("interpolation", MOD + ": ModelIntegrator"), ("wrapper", FL + ": RateIndependentFlowRuleWrapper"), ("flow", FL)],
    ["responses of transformed histories"], "metamorphic oracle")
add("P20", "Temperature dependent parameters have the documented values",
    "The value of every temperature dependent parameter (constant, shear modulus, mechanical threshold, Kocks-Mecking, polynomial, "
    "piecewise linear, Arrhenius types) is the documented function of temperature and of its scaled coefficients, for scalar and per-test coefficients and "
    "any leading dimensions of the temperature, exactly at control points too. Its derivatives with respect to the coefficients "
    "and the temperature are exact, and it reports the batch shape of its coefficients.",
    "inputs configurations", "types, coefficient shapes, temperature shapes, scalings", "The tests use one or two temperatures and scalar coefficients.",
    [("parameters", TE)], ["values, derivatives, reported shapes"], "oracle: formulas written down independently")
add("P21", "Scaling functions map bounds, invert and transform distributions",
    "Scaling functions map the unit interval onto their bounds, clamp beyond them (or continue, for the unbounded type) as documented, and unscaling undoes "
    "scaling inside the bounds, for scalar and per-component bounds. The mean and standard deviation of scaled normal distributions and the "
    "helpers which print or convert calibrated parameters back to physical values are consistent with them.",
    "inputs", "bounds of random shape and magnitude, values inside, at and beyond the bounds", "The tests use single bounds and values inside.",
    [("scaling", SC), ("helpers", OP + ": print_info, get_*_values")], ["scaled and unscaled values, statistics"],
    "oracle: closed forms and quadrature")
add("P22", "Numerical scalings are transparent",
    "A temperature dependent parameter or a model whose parameters are given through numerical scaling functions has the same values, rates, Jacobians and simulations as the one with the physical values given "
    "directly, and its derivatives with respect to the scaled parameters follow from the chain rule.",
    "inputs configurations programs", "random models with each parameter scaled in a different way", "The tests scale single parameters.",
    [("scaling of parameters", TE + ": TemperatureParameter"), ("rules with own scaling", FL + ": KocksMeckingRegimeFlowRule")],
    ["rates, derivatives, simulations of both models"], "differential oracle")
add("P23", "Time series interpolation is piecewise linear",
    "All time series interpolators return, for every series of a batch, the piecewise linear interpolation of its own points at any time between "
    "its first and last point, including exactly at points, at the ends, and for series which repeat their times.",
    "inputs", "series with random spacing, query times at, between and at the ends of points", "The tests use uniform times and interior points.",
    [("interpolators", UT + ": ArbitraryBatchTimeSeriesInterpolator, BatchTimeSeriesInterpolator, CheaterBatchTimeSeriesInterpolator, timeseries_interpolate_*")],
    ["interpolated values"], "oracle: numpy interpolation series by series")
add("P24", "Results are condensed experiment by experiment",
    "Converting simulated responses into experimental observables treats every experiment by its own type and cycle labels, independently of the others: tension and direct data keep "
    "all points, relaxation and creep are the change since the start of the hold (and zero before), cyclic tests carry the maximum of each cycle, and abstract tension tests "
    "carry yield and ultimate values. Derivatives go through the conversion exactly.",
    "inputs", "sets of experiments of random types with individual cycle labels", "The tests use one type per set with equal labels.",
    [("conversion", EX + ": convert_results, format_*")], ["condensed results and derivatives"], "oracle: loop over single experiments")
add("P25", "Generated test histories are the requested tests",
    "Generated tension, creep and cyclic tests reach the requested strains and stresses at the requested rates and hold for the requested times, "
    "with the requested number of points, temperatures and cycle labels, for every sign, ratio and with or without holds; times never decrease. Randomly drawn descriptions stay within the requested ranges.",
    "inputs", "random test descriptions", "The tests check shapes and single descriptions.",
    [("generators", EX + ": make_tension_tests, make_creep_tests, sample_*, generate_random_*")],
    ["generated histories point by point"], "oracle: the description evaluated point by point")
add("P26", "Experimental data are loaded completely and unchanged",
    "Loading a data set gives times, temperatures and the prescribed quantity (strain or stress depending on the control of each experiment) as input data, the other quantity as "
    "results, and cycles, types and controls in their numeric coding, unchanged and in order, for any mix of experiments. Unknown types or controls are rejected.",
    "inputs", "data sets of random size, mix of types and controls, storage types", "The tests load one file.",
    [("loading", EX + ": load_results")], ["loaded tensors against the data set"], "oracle: the data set itself")
add("P27", "Predictions of deterministic and single level statistical models",
    "The prediction of a deterministic calibration model is, for each experiment, the condensed response of that experiment simulated alone with the current parameters, "
    "with exact gradients, and it does not alter the initial values it was given. The single level statistical model assigns to its parameters and to "
    "the observations the densities which its means, deviations and noise specify.",
    "inputs configurations histories", "random parameter sets, mixes of experiments, noise models, parameter values", "The tests run one tension data set.",
    [("models", OP + ": DeterministicModel, StatisticalModel")], ["predictions, gradients, log densities"],
    "oracle: every experiment simulated alone; closed form densities")
add("P28", "Joint density of the hierarchical model",
    "The joint density of the hierarchical calibration model is the product of the documented factors for every value of the unknowns: normal priors of the population means, half normal priors of the deviations and of the noise, "
    "a normal distribution of the parameters of each trial around the population, and a normal distribution of every observation around the prediction of its own trial with the noise of its test type and the weight of "
    "that type. Samples drawn from it give every trial its own parameters and predictions made with them.",
    "inputs configurations", "random parameters, mixes of test types, noise per type or common, weights, names", "The tests run one data set and check no density.",
    [("model", OP + ": HierarchicalStatisticalModel.forward")], ["sample sites of traced executions"],
    "oracle: closed form densities, every trial simulated alone")
add("P29", "Inference optimises the joint density",
    "The loss which variational inference of the hierarchical model minimises is the negative joint density at the current point estimates, its gradient is exact with the adjoint "
    "method, and training changes the estimates but never the prior means and deviations it was given. Deterministic "
    "training follows the same path with the adjoint method and with backpropagation.",
    "histories inputs configurations", "sequences of optimisation steps over random calibration problems", "The tests check no loss and no gradient of the inference.",
    [("guide", OP + ": HierarchicalStatisticalModel.make_guide"), ("adjoint parameters", OP + ": get_extra_params")],
    ["losses and gradients at every training step, priors after training"], "oracle: independently written density, differentiated by backpropagation")
add("P30", "Neural network rates and batched Jacobians",
    "A system defined by a network of the state and an external forcing has the network's output at the concatenated state and forcing as its rate and the derivative "
    "of that output with respect to the state as its Jacobian, for any leading dimensions, so that its trajectories and gradients are those of the discrete equations. The decorator which adds Jacobians to a function "
    "returns the value and the Jacobians with respect to the selected arguments.",
    "inputs programs", "random networks, sizes, leading dimensions, options", "There are no tests of it.",
    [("wrapper", NO + ": NeuralODE"), ("Jacobians", UT + ": jacobianize"), ("integration", ODE)],
    ["rates, Jacobians, trajectories, gradients"], "oracle: Jacobians by hand, independent integrator")
add("P31", "Finite differences and batched tensor helpers",
    "The batched finite difference helpers return, for each member of a batch, the derivative of the function to the accuracy of a one sided difference, for scalar, vector and matrix "
    "values and arguments and also at zero. The batched product, addition of identities and the Heaviside and Macaulay functions have their mathematical values for all shapes.",
    "inputs", "random smooth functions, shapes and points", "The tests use the helpers but check only one or two of them.",
    [("helpers", UT + ": batch_differentiate, new_differentiate, differentiate, mbmm, heaviside, macaulay, add_id")],
    ["values"], "oracle: exact derivatives")
add("P32", "Evaluation is a pure function of its arguments",
    "Evaluating materials and their parts, simulating tests, integrating systems and making predictions leave all the caller's tensors, parameters, "
    "random number streams and global settings (of torch, numpy, warnings and the process) as they were, also if a solve fails. Repeating an evaluation, also after other evaluations of the same object with other arguments, gives identical values, results "
    "handed out earlier do not change, and an object whose parameters or arguments were changed in place since behaves like a new one.",
    "histories inputs", "random sequences of evaluations on shared objects with all reachable tensors watched", "The tests evaluate fresh objects once and never look at their arguments afterwards.",
    [("everything", MOD), ("parts", FL), ("hardening", HA), ("integration", ODE), ("solvers", CH), ("calibration", OP)],
    ["argument tensors, parameters, earlier results, random states before and after"], "online monitor of all reachable tensors around every call")

add("P33", "Unusable configurations are rejected",
    "Configurations which cannot be computed as asked are rejected with an exception instead of being computed as something else: unknown names of integration methods, linear "
    "and direct solvers and initial guesses, also when passed through simulated tests, unknown linear solvers of the nonlinear solvers, unknown solution methods of block operators, "
    "and regime models built from flow rules with different numbers of history variables. All the documented choices are accepted.",
    "configurations", "all names and some which do not exist, random pairs of flow rules", "The tests only use valid configurations.",
    [("options", ODE + ": FixedGridBlockSolver"), ("linear solvers", SOL + ": newton_raphson, newton_raphson_bt"), ("regimes", FL + ": KocksMeckingRegimeFlowRule"),
     ("operators", CH + ": ChunkTimeOperatorSolverContext")], ["exceptions"], "oracle: exactly the documented choices are accepted")
add("P34", "Plots of the variance show the data",
    "Plots comparing sets of measured and simulated curves show the means of both sets over the strain as lines and the requested percentiles of both as bands whose limits are "
    "samples, for any number of samples and points, and leave the data as they are.",
    "inputs", "random sets of curves of any size and percentiles", "The tests never plot.",
    [("plot", UT + ": visualize_variance")], ["lines and filled bands of the figure"], "oracle: order statistics counted point by point")
add("P35", "Composed models are complete torch modules",
    "The trainable parameters of a composed model, integrator or calibration model are exactly the parameters its parts were given, however they are nested. Deep copies "
    "behave like the original and are independent of it, and a saved state loaded into another object of the same composition gives the same rates, derivatives and predictions.",
    "configurations histories", "random nested compositions, changes of parameters before and after copying, saving and loading", "The tests do not copy, save or list parameters of composed models.",
    [("flow rules", FL), ("hardening", HA), ("damage", DA), ("parameters", TE), ("models", MOD), ("calibration", OP + ": DeterministicModel")],
    ["parameter lists, state dictionaries, values of copies"], "differential oracle: fresh objects with the same values, bitwise")
add("P36", "Memory layout and recording of gradients do not matter",
    "Materials and their parts, simulated tests, integrations, block solvers, interpolators, conversions and predictions return the same values whatever the memory layout of their arguments "
    "(transposed, strided, expanded or shifted views), whether or not the arguments require gradients, and whether or not gradients are recorded.",
    "inputs configurations", "random calls with every argument laid out differently, under both gradient modes", "The tests pass freshly created contiguous tensors.",
    [("block solvers", CH), ("integration", ODE), ("tests", MOD), ("parts", FL), ("helpers", UT), ("conversion", EX)],
    ["returned values"], "metamorphic oracle: the same call with contiguous arguments")
add("P37", "Concurrent simulations do not disturb each other",
    "Simulations, integrations and their gradients run at the same time by several threads over the same systems, material models and integrators give each caller the results it gets alone.",
    "schedules", "random sets of jobs over shared objects run by up to four threads with very short time slices", "The tests use one thread.",
    [("solver objects", ODE + ": FixedGridBlockSolver, IntegrateWithAdjoint"), ("controlled models", MOD + ": ModelIntegrator, BothBasedModel"), ("parts", FL)],
    ["values and gradients of every thread, order of the rate evaluations"], "stress of thread interleavings, differential oracle: the same jobs one after the other")

add("P38", "Second derivatives by backpropagation are exact",
    "For smooth systems, the second derivatives of any loss of a trajectory with respect to parameters and initial state, obtained by differentiating twice through the solver without the "
    "adjoint method, are those of the exactly solved discrete equations, for all options. The same holds for the solutions returned by the nonlinear solvers, and their returned Jacobians carry "
    "exact first derivatives.",
    "inputs configurations", "random systems, losses, options and directions", "The tests differentiate once.",
    [("updates at the solution", CH + ": newton_raphson_chunk"), ("nonlinear solvers", SOL + ": newton_raphson, newton_raphson_bt"), ("integration", ODE + ": odeint")],
    ["Hessian vector products"], "oracle: differences of exact first derivatives; Newton steps with recorded derivatives")

add("P39", "Memory for derivatives does not grow with the history",
    "An adjoint solution records a number of tensors for backpropagation which does not depend on the number of blocks of time steps, and its backward pass keeps at once what a few blocks need, "
    "however long the history (documented as far less memory than backpropagation through the solver). Everything recorded for derivatives is released with the results, "
    "and repeated evaluations, simulations, backward passes, predictions and training steps leave no further tensors alive.",
    "histories configurations", "random systems and materials over histories of 2 and 9 blocks, random operations repeated with and without backward passes", "The tests measure no memory and run everything once.",
    [("adjoint", ODE + ": odeint_adjoint, IntegrateWithAdjoint, FixedGridBlockSolver.rewind"), ("simulated tests", MOD + ": ModelIntegrator"), ("training", OP), ("helpers", UT)],
    ["tensors recorded and released by torch's hooks for saved tensors", "living tensors"], "monitor of every recorded tensor, counts of living tensors between repetitions")
add("P40", "Computations stay on the device of their arguments",
    "With models, parameters and data on a device other than the CPU, rates and derivatives of material models and their parts, simulated tests, integrations, adjoint and backpropagated gradients, "
    "block and nonlinear solvers, interpolation, loading, generation and conversion of test data, and calibration models combine tensors of one device only, return results and gradients on that device, "
    "and give the values they give on the CPU, also when the same calls were made on the CPU before.",
    "inputs configurations", "random calls on the CPU and on an emulated second device which refuses what real devices refuse", "The tests run on the CPU, where forgetting a device has no effect.",
    [("parts", FL + ": zero rates and derivatives"), ("hardening", HA), ("tests", MOD + ": ModelIntegrator"), ("integration", ODE), ("block solvers", CH), ("solvers", SOL), ("calibration", OP), ("data", EX),
     ("helpers", UT)], ["device of the operands of every operation, values and gradients"], "emulated device observing every operation; differential oracle: the same call on the CPU")

with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -m compileall -q mon >/dev/null; /opt/venv/bin/python -c 'import torch, pyro, xarray, scipy'",
    checks=[dict(
        property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
        technique="runtime monitoring of the real code under random and hostile workloads: " + p["note"],
        level="exploration",
        level_note="held on every monitored execution of this run; workloads are random, the evidence file counts what the monitors saw")
        for p in P],
    not_applicable=[],
)
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
