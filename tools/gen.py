"""writes properties.jsonl and MANIFEST.json from one table"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, technique, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  tests=tests, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, level=level))


prop(
    "C01", "Mass, momentum, energy and scalars are conserved in closed domains",
    "When every boundary is periodic or a reflecting wall, the total mass, the total energy and the total of every passive scalar in the domain stay equal to their initial values up to rounding after every step, and so does the total momentum along each direction that is periodic. This holds for every mixture of dimensions and polynomial degrees, both Euler flux solvers (and the advection solver in periodic domains), every limiting option (blended fallback included) and every time integrator.",
    ["inputs", "configurations", "histories"],
    "all states, all solver configurations with closed boundaries, every step of a run",
    "The tests never sum the state: conservation is a statement about every step of every configuration, and the seam of a periodic direction only matters when a troubled cell touches it.",
    ["fvhoe/solver.py", "fvhoe/slope_limiting.py", "fvhoe/boundary_conditions.py", "fvhoe/ode.py"],
    [("one flux per face, differenced", "EulerSolver.euler_equation"), ("face-wise blending of fluxes", "EulerSolver.revise_fluxes, broadcast_to_troubled_interfaces"), ("wall fluxes vanish by mirror symmetry", "_set_symmetric_bc and the Riemann solvers")],
    ["state after every step", "rate of change returned for arbitrary states"],
    "conservation monitor on every step of randomised runs",
    "Held on the executions observed; totals compared to rounding.")

prop(
    "C02", "Smooth flow is resolved at the design order of accuracy",
    "For smooth periodic flow without limiting, the error of the computed rate of change of the cell averages decreases under mesh refinement at least at order p+1, where p is the smallest polynomial degree among the directions along which the flow varies. This holds in one, two and three dimensions, for all degrees 0 to 8, for mixed degrees, non-square cells and every flux solver, and the solution evolved to a final time converges at that order too, up to the order of the time integrator.",
    ["inputs", "configurations"],
    "all smooth flows, all directions, all degree mixtures 0..8, all flux solvers",
    "The tests check one advected sine wave with equal degrees; an error in one stencil, one axis or one transverse average shows only for particular degree mixtures and genuinely multi-dimensional flow.",
    ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/stencils.py", "fvhoe/riemann_solvers.py"],
    [("stencils", "stencils.get_*_stencil_weights"), ("face values and flux averages", "EulerSolver.hydrofluxes"), ("averages <-> centres", "EulerSolver.interpolate_primitives_from_conservatives")],
    ["rate of change for exact cell averages", "evolved state vs exact solution"],
    "convergence monitor against exact flux differences of manufactured smooth flows",
    "Observed order measured on two meshes per case against an exact oracle computed by Gauss quadrature.")

prop(
    "C03", "Reconstruction and averaging are exact for polynomials up to the degree",
    "Point values reconstructed from cell averages at a cell's left face, centre and right face, and cell averages recovered from centre values, are exact for every polynomial up to the chosen degree (0 to 8), along any axis and in any mixture of degrees per direction. Initial cell averages computed from a point-wise function are exact for every polynomial up to the degree, and mirroring the data mirrors the reconstructed values.",
    ["inputs", "configurations"],
    "all polynomials of degree <= p, p = 0..8, all axes, positions and array shapes",
    "Tests check constants, or convergence for a sine along one axis; wrong weights at one degree or position can still converge at a tested order.",
    ["fvhoe/stencils.py", "fvhoe/fv.py"],
    [("weights", "get_conservative_interpolation_stencil_weights, get_transverse_reconstruction_stencil_weights"), ("sweeps", "stencil_sweep"), ("quadrature", "fv_average, get_legendre_quadrature")],
    ["values returned for random polynomials", "cell averages a new solver starts from"],
    "exactness oracle with rational-arithmetic references over random polynomials",
    "All degrees and positions are enumerated; polynomials, axes and shapes are sampled.")

prop(
    "C04", "Every time integrator attains its nominal order on every ODE",
    "The Euler, SSPRK2, SSPRK3 and RK4 integrators advance any system u' = f(t, u), including right-hand sides that depend on time, with one, two, three and four evaluations per step and with global errors of order 1, 2, 3 and 4; one step equals the method's Butcher tableau. The default run chooses the integrator whose order is the highest polynomial degree plus one, at most 4, and time-dependent boundary values are evaluated at the time of each stage.",
    ["inputs", "histories", "configurations"],
    "all right-hand sides f(t, u), all step sizes, all integrators, all degrees",
    "The only right-hand side the tests integrate is autonomous, so stage times are never observed.",
    ["fvhoe/ode.py", "fvhoe/solver.py"],
    [("stage formulas", "ODE.euler/ssprk2/ssprk3/rk4"), ("choice of the integrator", "EulerSolver.run"), ("stage time for boundaries", "EulerSolver.f")],
    ["(t, u) arguments of every right-hand-side evaluation", "state after every step"],
    "trace monitor of stage evaluations + tableau reference + order measurement",
    "Every stage evaluation is recorded and compared with a tableau replay.")

prop(
    "C05", "A run follows its time schedule exactly and logs each output once",
    "A run to an end time advances through strictly increasing times, never passes the end time or a requested output time, reaches each requested output time between the start and the end exactly, and logs exactly one snapshot at the start, one at each of those times and one at the end, in order. With logging of every step each step is logged exactly once; without exact stopping no step is shortened and the run ends at the first step at or past the end time; a run by number of steps takes exactly that many steps. This holds for unsorted, duplicate, past or array-valued output times and when a solver is run again to continue.",
    ["histories", "inputs"],
    "all schedules of output times, end times, step sizes and sequences of runs on one solver",
    "Tests use evenly spaced output times from zero in a single run; rounding at the output times and continued runs are not sampled.",
    ["fvhoe/ode.py"],
    [("target handling", "ODE.integrate"), ("shortened steps", "_hit_target, ODE.take_step")],
    ["time after every step", "snapshot times", "every right-hand-side evaluation"],
    "online trace-specification checker over randomised schedules",
    "Recorded traces are checked against a schedule specification with exact float comparison.")

prop(
    "C06", "The time step obeys the CFL condition",
    "Unless a fixed time step is given, every step of a run has the size CFL number times smallest cell width divided by the largest value, over the cells, of the sum of the absolute velocity components plus the number of active dimensions times the sound speed, and it is shortened only to reach an output time. A fixed time step is used as given.",
    ["inputs", "configurations", "histories"],
    "all states, meshes, degrees and dimensions, every step of a run",
    "Tests never compare a step size with the state that produced it.",
    ["fvhoe/hydro.py", "fvhoe/solver.py", "fvhoe/ode.py"],
    [("step size", "hydro_dt"), ("use of the step", "EulerSolver.hydrofluxes, ODE.take_step")],
    ["step sizes along a run", "step returned with the rate of change"],
    "step-size monitor recomputing the CFL bound from every observed state",
    "Wave speeds are recomputed from the cell-averaged primitive state by an independent reference.")

prop(
    "C07", "Interface fluxes are consistent, upwind and symmetric",
    "Each flux solver returns the physical flux when both sides are equal, returns the upwind side's physical flux when all waves run one way, gives the mirrored flux for mirrored states and the same flux in every direction up to relabelling the axes. The local Lax-Friedrichs flux is the mean flux minus half the larger wave speed times the jump; the HLLC flux satisfies the jump relations of its three waves, whose outer two run at the smaller normal velocity minus, and the larger plus, the larger sound speed, keeps stationary contacts and shear layers exactly and carries passive scalars and transverse velocity with the mass flux from the upwind side; the advection solver takes the pressure-less flux of the upwind side.",
    ["inputs"],
    "all pairs of admissible states, all directions, any number of passive scalars, any array shape",
    "Tests only exercise the solvers inside a few runs; wrong branches in some wave configuration need states the runs never produce.",
    ["fvhoe/riemann_solvers.py", "fvhoe/hydro.py"],
    [("llf, hllc, advection_upwind", "riemann_solvers.py"), ("physical flux", "hydro.compute_fluxes")],
    ["fluxes returned for random and adversarial state pairs"],
    "algebraic oracles and an independent reference flux on randomised state pairs",
    "All wave configurations are required to be observed in every run.")

prop(
    "C08", "Ghost cells follow the boundary type on every side, edge and corner",
    "Padding a state leaves the interior unchanged and fills each ghost cell according to the boundary of its side: periodic cells are the wrapped interior, free cells repeat the edge cell, outflow cells mirror the interior, reflecting walls mirror it with the wall-normal momentum negated, prescribed boundaries take the given constant or function at that ghost cell's own position and time, and initial-condition boundaries the initial state there. Edges and corners are filled by applying the directions in the order x, y, z. This holds for every ghost width, mesh, domain, mixture of types per side and number of passive scalars.",
    ["inputs", "configurations"],
    "all states, widths, meshes and combinations of boundary types on the six sides",
    "Tests check equal cubes with the same type everywhere and one width; mixed sides, corners, positions and times are not sampled.",
    ["fvhoe/boundary_conditions.py", "fvhoe/fv.py", "fvhoe/solver.py"],
    [("slab fills", "BoundaryCondition.apply and _set_* helpers"), ("ghost coordinates", "fv_uniform_meshgen slabs, BoundaryCondition.trim_slabs")],
    ["padded arrays", "coordinates and times passed to boundary functions"],
    "per-cell reference model of the padding, with recorded boundary-function calls",
    "Compared exactly cell by cell.")

prop(
    "C09", "Primitive and conservative variables convert into each other exactly",
    "Converting primitive to conservative variables gives momentum density, total energy P/(gamma-1) plus kinetic energy, and density-weighted passive scalars, and converting back recovers the primitives to rounding, also when the numbers are given as integers. The physical flux and the sound speed agree with the Euler equations for every direction; inputs are never modified and passive scalars never influence the other variables.",
    ["inputs"],
    "all admissible states, gammas, directions, passive scalars and array shapes",
    "Tests check a few fixed arrays; one component, one direction or one passive scalar can be wrong without showing.",
    ["fvhoe/hydro.py"],
    [("conversions", "compute_primitives, compute_conservatives"), ("flux and sound speed", "compute_fluxes, compute_sound_speed"), ("variable indexing", "HydroState")],
    ["arrays returned for random states"],
    "reference-model monitor on randomised states",
    "Compared with per-component textbook formulas.")

prop(
    "C10", "Results do not depend on axis labels, orientation or periodic origin",
    "Relabelling the axes of a problem, mirroring it along an axis (negating that velocity) or shifting a periodic problem by whole cells, and then running it, gives the relabelled, mirrored or shifted result of the original run, to rounding. This holds for every configuration, limiting included, with two exceptions that are part of the documented formulas: the absolute-range option of the numerical admissibility test on signed velocities is not mirror symmetric, and corners between prescribed boundaries depend on the order of the directions.",
    ["inputs", "configurations", "histories"],
    "all states and configurations, the full group of axis permutations, mirrors and periodic shifts",
    "Tests check symmetric initial data in a few set-ups, which hides any defect that is itself symmetric in the data.",
    ["fvhoe/solver.py", "fvhoe/slope_limiting.py", "fvhoe/smooth_extrema_detection.py", "fvhoe/riemann_solvers.py", "fvhoe/boundary_conditions.py"],
    [("direction-by-direction code", "EulerSolver.hydrofluxes"), ("detection and blending", "slope_limiting.py")],
    ["final states of original and transformed runs"],
    "metamorphic monitor: paired runs of the original and the transformed problem",
    "Asymmetric random data; pairs compared to rounding.")

prop(
    "C11", "Results do not depend on the choice of units",
    "Rescaling the units of length, density and velocity of a problem (pressure, momentum, energy and time scaling accordingly) rescales the computed time steps and states by the same factors and changes nothing else, provided that everything the user gives in units (sound-speed floor, admissibility bounds, fixed time step, prescribed boundary values) is rescaled too. This holds for every configuration, limiting included.",
    ["inputs", "configurations", "histories"],
    "all states and configurations, all scalings by powers of two within the floating-point range of the floors",
    "Every test uses order-one values on unit-sized domains, where a misplaced power of the cell width or density is invisible.",
    ["fvhoe/solver.py", "fvhoe/hydro.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py"],
    [("dimensionally consistent formulas", "whole scheme")],
    ["time steps and states of paired runs"],
    "metamorphic monitor: paired runs in different units",
    "Scalings are powers of two so that the pairs agree to the last bits.")

prop(
    "C12", "Passive scalars are carried by the flow and never influence it",
    "Adding, removing, renaming or reordering passive scalars never changes the hydrodynamic result, and each scalar evolves independently of the others. A spatially constant scalar stays constant, scaling a scalar scales its result, without slope limiting the result is linear in the scalar, and a scalar that starts equal to another stays equal to it.",
    ["inputs", "configurations", "histories"],
    "all flows, scalar fields, numbers, names and orders of scalars",
    "Tests advect one scalar next to an identical density; interactions between several scalars and limited flow are not sampled.",
    ["fvhoe/hydro.py", "fvhoe/riemann_solvers.py", "fvhoe/solver.py", "fvhoe/initial_conditions.py", "fvhoe/slope_limiting.py"],
    [("scalar rows", "HydroState, compute_*, hllc"), ("detection on hydro variables only", "EulerSolver.revise_fluxes")],
    ["final states of paired runs"],
    "metamorphic monitor: paired runs with different scalars",
    "Pairs compared to rounding; hydrodynamic rows bit-for-bit up to rounding.")

prop(
    "C13", "Troubled cells are exactly those that violate the chosen criteria",
    "A cell is flagged as troubled exactly when, for one of the selected variables, the candidate value leaves its allowed range - relative mode: the range of the old values in the cell's 3-per-direction neighbourhood, widened by the tolerance times the global or local spread; absolute mode: from (1 - tolerance) times the global or local minimum to (1 + tolerance) times the maximum - and no smooth extremum is detected for that variable, or when any listed variable leaves its physical bounds. The reported violation magnitudes are positive exactly in cells flagged by the respective criterion.",
    ["inputs", "configurations"],
    "all old and candidate states, modes, ranges, tolerances, variable selections, bounds and dimensions",
    "Tests only observe the limited result of smooth or square advection.",
    ["fvhoe/slope_limiting.py", "fvhoe/solver.py"],
    [("detection", "detect_troubled_cells"), ("use in the solver", "EulerSolver.revise_fluxes")],
    ["flags and magnitudes for random fields", "trouble recorded by one-stage runs"],
    "per-cell reference detector compared on randomised fields and runs",
    "Cases whose decision lies within rounding of a threshold are excluded.")

prop(
    "C14", "Limiting changes only fluxes next to troubled cells, on both sides alike",
    "With limiting on, the flux through each face is the high-order flux if no cell nearby is troubled, the slope-limited second-order flux if one of its two cells is troubled, and with convex blending the mixture whose fallback share is 1, 3/4, 1/2 or 1/4 for the troubled cell itself, its face neighbours, its diagonal neighbours and the rest of its 5-wide neighbourhood. The same value is used by the two cells sharing a face, across periodic boundaries too. Hence without troubled cells the result equals the unlimited one, and with all cells forced to be troubled it equals the second-order limited scheme everywhere.",
    ["inputs", "configurations", "histories"],
    "all troubled-cell patterns, dimensions, boundaries and blending modes",
    "Tests only look at the outcome of a few limited runs; which faces are replaced is never observed.",
    ["fvhoe/slope_limiting.py", "fvhoe/solver.py"],
    [("cell flags to face weights", "broadcast_to_troubled_interfaces and convex variants"), ("flux replacement", "EulerSolver.revise_fluxes")],
    ["face weights for random patterns", "rate of change for random states"],
    "reference-model monitor of the complete limited right-hand side",
    "The reference scheme is an independent implementation.")

prop(
    "C15", "Slope limiters never create new extrema",
    "The limited face values of every cell lie between the averages of the cell and the neighbour on that side (minmod and moncen), the slope vanishes at local extrema, linear data is reproduced exactly, and the slope has the documented minmod or monotonised-central value. Reversing or negating the data reverses or negates the slopes.",
    ["inputs"],
    "all data, axes, limiters and array shapes",
    "Tests only run the limiters inside a few problems.",
    ["fvhoe/slope_limiting.py"],
    [("limiters", "minmod, moncen, MUSCL_interpolations")],
    ["face values returned for random data"],
    "invariant monitor on randomised data with a reference limiter",
    "Data includes ties, plateaus, tiny and huge differences.")

prop(
    "C16", "Smooth extrema are told apart from discontinuities, without bias",
    "The smooth-extremum indicator of a cell is 1 where the slope changes smoothly (resolved smooth data, straight or flat data) and below 1 exactly where, for the cell or one of its two neighbours, the change of the central slope on the left or on the right side has the opposite sign of, or is less than half of, the mean of the two (mean changes within the tolerance count as smooth). It does not change when the data is mirrored, negated, shifted by a constant or relabelled, and in several dimensions it is the smallest of the one-dimensional indicators.",
    ["inputs"],
    "all data, directions, dimensions and tolerances",
    "No test calls the detector.",
    ["fvhoe/smooth_extrema_detection.py", "fvhoe/slope_limiting.py"],
    [("detector", "compute_1d/2d/3d_smooth_extrema_detector")],
    ["indicator values for random, smooth and discontinuous data"],
    "reference-model and symmetry monitor on randomised data",
    "Compared with a per-cell reference and by symmetry.")

prop(
    "C17", "Robust schemes keep density, pressure and bounds",
    "With degree 0 and the local Lax-Friedrichs solver, density and pressure stay positive from any positive initial state (near-vacuum and strong shocks included) while the CFL number summed over directions is at most 0.8, and passive scalars never leave their initial range. Advecting density, or scalars in uniform density, with uniform velocity and pressure, the degree-0 scheme and the fully limited second-order scheme (CFL number summed over directions at most 0.5) create no new extremum and do not increase the total variation in one dimension.",
    ["inputs", "configurations", "histories"],
    "all positive initial states, all directions and boundaries, every step",
    "Tests check one square wave with one tolerance.",
    ["fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py", "fvhoe/hydro.py", "fvhoe/ode.py"],
    [("dissipation and upwinding", "riemann_solvers.py"), ("limited slopes", "MUSCL_interpolations"), ("step size", "hydro_dt")],
    ["state after every step"],
    "invariant monitor on every step of hostile runs",
    "Only configurations for which the bound is a theorem or standard result are run.")

prop(
    "C18", "Uniform flow, moving contacts and lower-dimensional flow are preserved",
    "A uniform flow stays uniform, and a density or scalar structure carried in uniform velocity and pressure keeps velocity and pressure uniform, to rounding, for every configuration with matching boundaries. A problem that does not vary along some directions gives the same result whether those directions are resolved by cells or left out.",
    ["inputs", "configurations", "histories"],
    "all uniform states, advected structures, dimensions, degrees, solvers and limiting options",
    "Tests compare a single sine run across directions; free-stream preservation is never checked.",
    ["fvhoe/solver.py", "fvhoe/fv.py", "fvhoe/riemann_solvers.py", "fvhoe/boundary_conditions.py"],
    [("weights sum to one", "stencils.py"), ("direction handling", "EulerSolver._init_mesh, hydrofluxes")],
    ["state after every step of paired runs"],
    "invariant and metamorphic monitor on randomised runs",
    "Compared to rounding.")

prop(
    "C19", "Snapshots faithfully record the state and never change afterwards",
    "Every logged snapshot holds the time, the cell-centre coordinates and the primitive variables of the state at that time - as cell averages or, if so requested, as values at the cell centres, accurate to the polynomial degree - and later steps never alter it. Taking snapshots does not influence the run, and a user-supplied snapshot function is called exactly once per snapshot, after that snapshot is stored.",
    ["histories", "configurations"],
    "all runs, schedules, degrees, boundaries and snapshot options",
    "Tests only read the last snapshot of a run.",
    ["fvhoe/solver.py", "fvhoe/ode.py", "fvhoe/array_management.py"],
    [("snapshot", "EulerSolver.snapshot"), ("copy out", "ArrayManager.get_numpy")],
    ["snapshot contents when taken and at the end", "state when the snapshot function is called"],
    "history monitor: digest of every snapshot at creation vs. end of run, against a reference",
    "Every snapshot of every run is recomputed from the state observed at its time.")

prop(
    "C20", "Saved runs load back identically and are never silently mixed or truncated",
    "Running with a snapshot directory writes exactly the snapshots of the run, and a later run that points to the same directory without overwriting returns those snapshots and their times unchanged instead of computing. With overwriting, old contents are replaced entirely; and if writing fails or the process dies at any point, a later load either returns a complete run or raises an error, never a partial one. The directory also receives a readable parameter file and a timing report for every configuration.",
    ["crash_points", "fault_sequences", "histories", "configurations"],
    "all configurations, sequences of saving/loading runs, and failure points during writing",
    "Tests save and reload one plain configuration without failures.",
    ["fvhoe/solver.py", "fvhoe/ode.py"],
    [("read", "EulerSolver.read_snapshots"), ("write", "EulerSolver.write_snapshots")],
    ["files in the directory", "snapshots after loading", "outcome of loads after injected faults"],
    "history checker over save/load sequences with fault injection at every file operation",
    "Faults are injected at every file-system call the writer makes, in scratch directories.", "fault_enumeration")

prop(
    "C21", "Results are reproducible and independent of unset memory and other solvers",
    "The same problem gives bit-identical results however often, in whatever order and in whatever process it is run, interleaved with other solvers or not. No result depends on memory that was allocated but never written, arrays handed in by the user are never modified, and evaluating the rate of change does not change the solver's state or result.",
    ["histories", "schedules", "configurations"],
    "all configurations, interleavings of several solvers, contents of fresh memory",
    "Tests run each solver once in isolation, in memory that happens to be zero.",
    ["fvhoe/solver.py", "fvhoe/boundary_conditions.py", "fvhoe/array_management.py", "fvhoe/fv.py", "fvhoe/hydro.py"],
    [("fresh arrays per solver", "ArrayManager, EulerSolver._init_array_allocation"), ("ghost cells", "BoundaryCondition.apply"), ("cached slices", "HydroState.__call__, get_symmetric_slices")],
    ["states of repeated, interleaved and memory-poisoned runs", "user arrays before and after"],
    "uninitialised-memory sanitizer (poisoned allocations) and replay comparison",
    "Fresh allocations are filled with several poison values, including NaN.")

prop(
    "C22", "Meshes and built-in initial conditions are what they claim to be",
    "A solver's mesh has the requested number of equal cells per direction covering the requested domain, with coordinates at the cell centres, and a solver starts from the cell averages of the conservative variables of its initial condition. Each built-in initial condition returns its documented field for every parameter choice, direction and mesh, including the total energy of the Sedov blast.",
    ["inputs", "configurations"],
    "all meshes, domains, initial conditions, parameters and directions",
    "Tests touch a few initial conditions with default parameters.",
    ["fvhoe/initial_conditions.py", "fvhoe/fv.py", "fvhoe/solver.py"],
    [("initial conditions", "initial_conditions.py"), ("mesh", "fv_uniform_meshgen"), ("averaging", "fv_average")],
    ["coordinates, fields and starting state of new solvers"],
    "reference-model monitor over randomised parameters",
    "Every built-in initial condition and parameter is drawn.")

prop(
    "C23", "Logged troubles are the per-cell mean over the stages of the last step",
    "After every step with limiting, the recorded trouble of each cell is the fraction of that step's stages in which the cell was flagged, and the recorded violation magnitudes are the stage means of the magnitudes, one value per cell of the mesh. Snapshots carry these values for the step just taken, and zeros before the first step.",
    ["histories", "configurations"],
    "all limited runs, integrators, steps and snapshot schedules",
    "No test reads the recorded troubles.",
    ["fvhoe/solver.py", "fvhoe/slope_limiting.py"],
    [("accumulation and reset", "EulerSolver.log_troubles, step_helper_function"), ("snapshot fields", "EulerSolver.snapshot")],
    ["stage states of every step", "recorded troubles in snapshots"],
    "history monitor: stage-by-stage reference detection vs. the recorded mean",
    "Stages whose decisions lie within rounding of a threshold are skipped.")

prop(
    "C24", "Plots and samples show the data of the requested time and place",
    "Plotting a line or plane, and averaging over radial bins, uses the snapshot whose time is nearest to the requested one (the last if none is given) and the cells nearest to the requested coordinates, with matching axes, orientation, variable (velocity magnitude and troubles included) and extent; a printed summary names the time and cells used. This holds for solvers and plain snapshot lists, every pair of free directions and every variable.",
    ["inputs", "configurations", "histories"],
    "all snapshot histories, variables, slices, times, trouble modes and tolerances",
    "Tests only check that plotting does not fail.",
    ["fvhoe/visualization.py", "fvhoe/solver.py"],
    [("nearest indices", "get_indices_from_coordinates"), ("slices", "plot_1d_slice, plot_2d_slice"), ("bins", "sample_circular_average")],
    ["arguments that reach the drawing axes", "returned averages"],
    "recording stand-in axes compared with a per-point reference",
    "Drawn data is intercepted and compared exactly.")

prop(
    "C25", "The stand-alone 1D reference solver conserves, converges and agrees",
    "The stand-alone one-dimensional solver conserves mass, momentum and energy in periodic domains, preserves uniform states, gives mirrored (and in periodic domains shifted) results for mirrored (shifted) data, stops at the first step at or beyond the end time with steps obeying its CFL number, and reaches its nominal order (space 1 to 5, time 1 to 4) for smooth density waves carried by a uniform flow and second order for general smooth flow. At first order its steps equal those of the main solver of degree 0, and on shock tubes it converges to the exact solution together with the main solver.",
    ["inputs", "configurations", "histories"],
    "all of its initial conditions, orders, flux solvers, boundary types and resolutions",
    "No test imports it.",
    ["fvhoe/romain_solver.py"],
    [("weno", "romain_solver.weno, cmp_flux, trace, smooth_extrema")],
    ["full solution history"],
    "conservation, symmetry and convergence monitor on its recorded histories",
    "Histories of whole runs are checked step by step.")

prop(
    "C26", "Array and timer bookkeeping is exact for every history of calls",
    "The array store returns exactly the arrays stored under each name, hands out copies where copies are promised, and refuses duplicate, unknown or non-array entries without changing anything. The timer's categories accumulate exactly the time between their start and stop, refuse double starts, stray stops and unknown or duplicate categories without changing anything, and are all stopped when a run ends; variable and range selection in the hydro-state helper returns exactly the requested rows and cells.",
    ["histories", "inputs"],
    "all sequences of operations, names and selections",
    "Tests cover single calls, not histories.",
    ["fvhoe/array_management.py", "fvhoe/timer.py", "fvhoe/hydro.py"],
    [("store", "ArrayManager"), ("timer", "Timer"), ("selection", "HydroState.__call__")],
    ["results and errors of every operation in random histories"],
    "model-based history checker (with a virtual clock)",
    "Random operation histories against small sequential models.")

prop(
    "C27", "The scripting wrapper runs exactly the requested simulation",
    "The scripting wrapper returns a solver that ran the given problem to the end time with the requested integrator and evenly spaced snapshots, saved under a directory name that differs whenever the project prefix, the end time, the integrator, the number of snapshots or any solver parameter passed differs, and re-reads it on the next call unless overwriting. Summary plots are produced once per snapshot when requested, and unknown integrators are refused.",
    ["configurations", "histories"],
    "all parameter sets, integrators, snapshot counts and sequences of calls",
    "No test imports it.",
    ["fvhoe/scripting.py"],
    [("wrapper", "EulerSolver_wrapper")],
    ["directories and files written", "returned solver's history"],
    "history checker over sequences of wrapper calls in scratch directories",
    "Compared with direct solver runs.")

prop(
    "C28", "Documented floors and fixed variables act as documented",
    "The sound-speed floor bounds the sound speed used everywhere from below, so that cold or pressure-less gas still yields finite fluxes and time steps. A density floor and a pressure floor, where given, bound the interpolated density and pressure from below, and primitive variables declared fixed keep their initial values.",
    ["inputs", "configurations", "histories"],
    "all states and floor values",
    "No test sets a floor or a fixed variable.",
    ["fvhoe/solver.py", "fvhoe/hydro.py", "fvhoe/riemann_solvers.py"],
    [("sound-speed floor", "compute_sound_speed"), ("constructor arguments", "EulerSolver.__init__")],
    ["fluxes and time steps for cold gas", "runs with floors and fixed variables"],
    "invariant monitor on cold-gas runs; known findings for the arguments that have no effect",
    "The floors on density and pressure and the fixed variables are known findings.")

prop(
    "C29", "Shock tubes converge to the exact solution",
    "For Riemann problems of moderate strength (densities within a factor of 6, pressures within a factor of 12), with shocks, contacts and rarefactions, along any direction, the computed solution converges to the exact entropy solution as the mesh is refined, with shocks at the right place and speed, for every polynomial degree with limiting on and for degree 0. Limited high-order runs stay finite and positive and do not overshoot the exact solution's range by more than a small fraction.",
    ["inputs", "configurations", "histories"],
    "Riemann problems of moderate strength, all directions, degrees, flux solvers and gammas",
    "Tests contain no exact shock solution.",
    ["fvhoe/solver.py", "fvhoe/riemann_solvers.py", "fvhoe/slope_limiting.py", "fvhoe/ode.py"],
    [("conservative shock capturing", "whole scheme")],
    ["final states vs. exact solution on two meshes"],
    "exact-Riemann-solution oracle on randomised shock tubes",
    "Error bounds calibrated with a wide margin over the unchanged code.")

prop(
    "C30", "Invalid requests are refused, not computed",
    "A request for something that does not exist or is not implemented raises an error before it yields a result, whatever the rest of the configuration is: unknown flux solvers, boundary types, detection modes and ranges, variables, integrators of the wrapper, and unknown limiters once a cell is limited; polynomial degrees above 8; duplicate, reserved or missing passive scalars; boundary specifications of the wrong form, prescribed boundaries without a usable value or thicker than their coordinate buffer, one-sided periodic boundaries and mirrored boundaries thicker than the domain; cell-average initial data that is not conservative and initial conditions that are no functions of x, y and z; convex limiting in 3D; and plots of unknown variables or of slices that leave the wrong number of coordinates free. None of them silently produces a result, while the same request with a valid value is served.",
    ["inputs", "configurations"],
    "all invalid values of each option, embedded in otherwise random valid configurations",
    "Tests check a few invalid slices and duplicate names.",
    ["fvhoe/solver.py", "fvhoe/boundary_conditions.py", "fvhoe/slope_limiting.py", "fvhoe/hydro.py", "fvhoe/stencils.py", "fvhoe/initial_conditions.py"],
    [("validation", "constructors and match statements")],
    ["exceptions raised"],
    "negative-workload monitor",
    "Each invalid option is embedded in random valid configurations and paired with a valid control.")

prop(
    "C31", "GPU mode gives the CPU results and keeps its arrays on the device",
    "A run with cupy=True gives the results of the same run on host arrays (times, snapshots, saved files, plots and the state, up to rounding) for every dimension, degree, boundary condition (prescribed values, functions and initial-condition boundaries included), limiting option and integrator. It never mixes host and device arrays, keeps the state on the device, and everything handed to the user (snapshots, files, plots, get_numpy) is a host array and a copy. A run with cupy=False never touches the device, and when the library is missing cupy=True falls back to the host run with a warning.",
    ["inputs", "configurations", "histories"],
    "all configurations, states, integrators and histories of the array manager",
    "No test enables cupy: the library is not installed where the tests run, so no line of the device path is ever executed by them.",
    ["fvhoe/array_management.py", "fvhoe/solver.py", "fvhoe/slope_limiting.py", "fvhoe/boundary_conditions.py"],
    [("storage and transfers", "ArrayManager.add, __call__, get_numpy"), ("device filters", "fvhoe.array_management maximum_filter dispatch, slope_limiting.detect_troubled_cells"), ("boundary values on the device", "BoundaryCondition.apply, _set_dirichlet_bc"), ("fallback", "CUPY_AVAILABLE")],
    ["results of paired runs", "types of all arrays handed out", "operations on device arrays"],
    "memory-separation monitor: a stand-in cupy whose arrays host code cannot reach, paired with host runs",
    "No GPU here: the stand-in enforces cupy's rules on mixing memories and computes with numpy; results compared pairwise.")

prop(
    "C32", "Equivalent requests give identical results",
    "Two requests that mean the same simulation give identical times, snapshots and states. Leaving an option out equals giving it its documented default, for every option of the solver, of its runs, of boundary conditions and of the scripting wrapper, whatever the other options are. The form of an option does not matter: one boundary type or value or a pair of equal ones, a constant array or a constant function, lists, tuples or arrays, integers or floats of equal value, the order and repetition of variables, limits and output times, positional or keyword arguments, primitive or conservative point data, progress bar and snapshot helper. run() equals the integrator matching the largest degree, a given number of steps overrides all other options of a run, and a run taken in several pieces passes through the same states as the run in one piece.",
    ["inputs", "configurations", "histories"],
    "all options and forms, embedded in random configurations, states and run histories",
    "The tests fix one spelling of every request and compare no two of them.",
    ["fvhoe/solver.py", "fvhoe/ode.py", "fvhoe/boundary_conditions.py", "fvhoe/scripting.py", "fvhoe/slope_limiting.py", "fvhoe/initial_conditions.py"],
    [("defaults and normalisation of options", "EulerSolver.__init__ and its _init_* methods, BoundaryCondition.__post_init__"), ("schedule of a run", "ODE.integrate"), ("choice of integrator", "EulerSolver.run"), ("wrapper", "EulerSolver_wrapper")],
    ["everything a pair of runs records"],
    "differential monitor on pairs of equivalent runs",
    "Pairs compared bit for bit; a third run at another value shows which options mattered in the surroundings drawn.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["tests"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                             observe_at=p["observe"], hook_needed=None),
            )) + "\n")
    checks, missing = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "vmon", "props", p["id"].lower() + ".py")):
            checks.append(dict(
                property=p["id"],
                quick_cmd=f"VERIF_TIER=quick bash run.sh {p['id']} --tier quick",
                thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p['id']} --tier thorough",
                evidence_file=f"evidence/{p['id']}.json",
                technique="runtime monitoring: " + p["technique"],
                level=p["level"],
                level_note=p["note"],
            ))
        else:
            missing.append(dict(property=p["id"], reason="check not built yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks,
                       not_applicable=missing), f, indent=1)
        f.write("\n")


main()
