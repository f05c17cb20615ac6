"""Run counts and evidence texts per property (no heavy imports)."""

META = {}


def meta(pid, **kw):
    META[pid] = kw


GRAPH = (
    "hyperelastic.spaces / frameworks / models / math (current working tree, compiled "
    "from source), numpy"
)

meta(
    "P01",
    runs={"quick": 1300, "thorough": 30000},
    torch_every=15,
    rule="A run is a seeded history of 8-30 client operations (stress, tangent, framework "
    "and model calls, module functions, load cases, lab simulations, in-place edits of "
    "the caller's deformation buffers, rebuilds, copies) over 2-4 spaces which share "
    "frameworks and models. Non-trivial: at least four evaluations were compared with a "
    "pristine process and at least one object or buffer was used twice.",
    measure="distinct histories: hash of the sequence of (operation, target, shape, layout, "
    "buffer version)",
    real=[GRAPH, "hyperelastic.lab load cases and simulations", "torch autograd (1 run in 15)"],
    stub=["user-defined material models (README templates)"],
    technique="seeded call histories over shared object graphs, each call against fresh objects in a pristine process",
    note="The reference is the code itself on fresh objects, so wrong formulas are outside this property (see P12, P13).",
    probes=["shared_framework_alternated", "buffer_edited_in_place", "tangent_after_foreign_stress"],
    assumptions=[
        "results of the same call in a freshly forked process with fresh objects are the reference",
        "relative tolerance 1e-9 (2e-5 in single precision)",
    ],
)

meta(
    "P02",
    runs={"quick": 900, "thorough": 30000},
    torch_every=15,
    technique="faults injected at every line, bytecode, callback and input of evaluations in seeded histories",
    note="Asynchronous faults are not injected inside clean-up code (with/finally/except), which no Python code can guard.",
    rule="A run is a seeded history of 6-16 evaluations of which about 60% carry a fault "
    "(exception raised at a chosen line or bytecode of the library, by the n-th model "
    "callback, by corrupted points under strict floating-point error handling, by invalid "
    "arguments), each followed by regular calls on the same objects. Non-trivial: at least "
    "one fault fired and a later evaluation was compared with fresh objects.",
    measure="distinct histories: hash of the sequence of (target, shape, fault kind, code location)",
    real=[GRAPH, "torch autograd (1 run in 15)"],
    stub=["user-defined material models (README templates)"],
    probes=["failed_on_data"],
    assumptions=[
        "results of the same call in a freshly forked process with fresh objects are the reference",
        "CPython delivers asynchronous exceptions between bytecodes",
    ],
)

meta(
    "P03",
    runs={"quick": 1500, "thorough": 30000},
    torch_every=15,
    technique="seeded histories of evaluations and caller-side writes, aliasing audited after every step",
    note="State variables passed through by a model are shared by design and not judged.",
    rule="A run is a seeded history of 8-24 operations: evaluations with read-only, strided, "
    "broadcast or private inputs and with user models which return arrays they own, are "
    "read-only, or are the very arrays they were given; lab evaluations; and writes of the "
    "caller into results it was given. After every step all inputs, owned arrays and kept "
    "results are compared bytewise, and every evaluation with a pristine process. "
    "Non-trivial: at least three evaluations compared and one result still kept.",
    measure="distinct histories: hash of the sequence of (operation, target, shape)",
    real=[GRAPH, "hyperelastic.lab load cases and simulations", "torch autograd (1 run in 15)"],
    stub=["user-defined material models (README templates)"],
    probes=[],
    assumptions=["bytewise comparison of all arrays the caller holds"],
)

meta(
    "P04",
    runs={"quick": 800, "thorough": 30000},
    technique="simulated incremental solver with rejected, repeated, interrupted, crashed and restarted increments",
    note="The reference mechanics are the library's own with a model that has the old state built in; the new state is taken from the model.",
    rule="A run simulates a solver with 1-3 bodies (which share spaces, frameworks and stateful "
    "models) over 8-26 events: accepted increments with iterations, rejected and repeated "
    "increments, checkpoints, crashes with restart from the last checkpoint, rewinds, deep "
    "copies and interrupted evaluations. Non-trivial: at least two accepted increments.",
    measure="distinct histories: hash of the sequence of (event, body, order of calls) and of "
    "(model, state container, shape) of the bodies",
    real=[GRAPH],
    stub=["stateful user-defined material models", "the incremental solver"],
    probes=[],
    assumptions=["a model with the old state built in, on fresh objects, is the reference"],
)

meta(
    "P05",
    runs={"quick": 1300, "thorough": 30000},
    technique="seeded schedules of the einsumt worker pool with torn writes, starved and failing workers",
    note="The worker pool is a stand-in whose jobs are scheduled line by line; numpy itself is atomic except for destination arrays, which are written in pieces.",
    rule="A run evaluates 1-8 stresses and tangents with parallel=True in one or two client "
    "tasks; every job of the worker pool is a step the seeded scheduler interleaves with the "
    "lines (or bytecodes) of library and einsumt; 1-16 workers, torn writes into destination "
    "arrays, starved workers, failing jobs. Non-trivial: at least one pool job ran and "
    "there were more than two context switches.",
    measure="distinct executions: hash of the complete decision list and of the calls",
    real=[GRAPH, "einsumt"],
    stub=["multiprocessing.pool.ThreadPool (same interface, workers are simulator tasks)"],
    probes=["failure_reached_caller"],
    assumptions=["serial evaluation on fresh objects is the reference"],
)

meta(
    "P06",
    runs={"quick": 1300, "thorough": 40000},
    torch_every=15,
    technique="seeded preemptive schedules of client threads at line and bytecode granularity",
    note="Preemption happens at lines and bytecodes of the library; numpy calls are atomic steps.",
    rule="A run starts 2-4 threads, each with its own spaces, frameworks and models, which "
    "evaluate 1-3 stresses, tangents, tensor functions or lab objects on shared read-only "
    "and on private inputs; a seeded scheduler preempts them at lines or bytecodes of the "
    "library, stalls single threads, and models of single threads fail. Non-trivial: at "
    "least one preemption.",
    measure="distinct executions: hash of the complete decision list and of the calls",
    real=[GRAPH, "hyperelastic.lab load cases and simulations", "torch autograd (1 run in 15)"],
    stub=["thread scheduling (real threads, one runs at a time)", "user-defined material models"],
    probes=[],
    assumptions=["the same call alone on fresh objects is the reference"],
)

meta(
    "P07",
    runs={"quick": 1500, "thorough": 20000},
    technique="seeded fit histories with failures injected at chosen material evaluations and in the optimizer",
    note="The reference model is the closed-form stress of the incompressible load cases; solutions are judged by stationarity of the residuals.",
    rule="A run is a history of 2-6 fits, failing fits (exception in the material factory or "
    "model at a chosen evaluation from the first to the last, too few evaluations allowed, "
    "non-finite data, invalid options), changes of data, masks and start values on one "
    "optimizer with 1-3 experiments. Non-trivial: at least one fit ran.",
    measure="distinct histories: hash of the sequence of (operation, method, fault, outcome) and the setup",
    real=["hyperelastic.lab, spaces, frameworks and models (current working tree)", "scipy.optimize.curve_fit"],
    stub=["experimental data (synthetic)", "material factory"],
    probes=[],
    assumptions=["closed-form stresses of incompressible load cases are the reference model"],
)

meta(
    "P08",
    runs={"quick": 700, "thorough": 20000},
    technique="seeded interleavings of fits of several optimizers: sequential, nested in callbacks, and preempted threads",
    note="Concurrent fits use the trust-region method (MINPACK callbacks are not part of the package).",
    rule="A run has 2-4 optimizers which share initial guesses, data arrays and load cases, and "
    "3-8 operations: fits, fits within the material evaluation of another fit, two fits in "
    "preempted threads, caller-side overwriting of returned arrays, new optimizers, plots. "
    "After every operation all optimizers, kept results and shared arrays are audited. "
    "Non-trivial: at least one fit was compared with the same fit alone.",
    measure="distinct histories: hash of operations, sharing and (for threads) the decision list",
    real=["hyperelastic.lab, spaces, frameworks and models (current working tree)", "scipy.optimize.curve_fit", "matplotlib (Agg)"],
    stub=["experimental data (synthetic)", "material factory", "thread scheduling"],
    probes=[],
    assumptions=["the same fit with fresh objects in a pristine process is the reference"],
)

meta(
    "P09",
    runs={"quick": 500, "thorough": 12000},
    technique="seeded interleavings of plots, figure changes and failures; all axes audited after every step",
    note="Artists are inspected as objects; rendered pixels are not compared.",
    rule="A run is a history of 6-14 plot calls of experiments, simulations and optimizers on "
    "given or new axes, mixed with user figures (pyplot and others), changes of the current "
    "axes, closed figures and failing calls (material, backend, data, axes). After every "
    "step the artists of all open axes are compared with an expected model. Non-trivial: at "
    "least two plots.",
    measure="distinct histories: hash of the sequence of (operation, object, axes given or not, fault)",
    real=["hyperelastic.lab (current working tree)", "matplotlib (Agg)"],
    stub=["experimental data (synthetic)", "material factory"],
    probes=[],
    assumptions=["closed-form stresses of incompressible load cases are the reference model"],
)

meta(
    "P10",
    runs={"quick": 2500, "thorough": 60000},
    technique="seeded histories of calls which reuse, overlap and poison destination buffers, with interrupted and concurrent calls",
    note="The reference is the full-tensor definition computed with numpy. Operands are regular (finite, invertible where inverted).",
    rule="A run is a seeded history of 8-26 operations on a few operands and destination "
    "buffers of several memory layouts (inside guarded blocks): calls with a new destination, "
    "a reused one (stale, NaN, inf, huge), one of the operands, an overlapping or transposed "
    "view; buffers used as operands again; calls interrupted at a line or bytecode; unusable "
    "destinations; operands edited in place. One run in five: two threads with own "
    "destinations and shared operands. Non-trivial: at least three results compared.",
    measure="distinct histories: hash of the sequence of (function, shape, aliasing, operands, faults) and decisions",
    real=["hyperelastic.math (current working tree)", "numpy"],
    stub=["thread scheduling"],
    probes=["destination_overlaps_operand"],
    assumptions=["full-tensor definitions in numpy are the reference, relative tolerance 1e-8"],
)

meta(
    "P11",
    runs={"quick": 1300, "thorough": 30000},
    torch_every=15,
    technique="seeded partitions of integration points into batches with damaged points; every point against itself alone",
    note="Results of the damaged points themselves are not judged. Empty batches are not evaluated.",
    rule="A run has 2-24 (rarely up to 2100) integration points of mixed kinds (general, "
    "undeformed, rotated, nearly or exactly equal stretches) with states and a history of "
    "evaluations in which the points are permuted, split, merged and reshaped into batches of "
    "any memory layout, and in about half of the evaluations 1-3 points are damaged (NaN, Inf, "
    "zero, singular, inverted, huge, tiny, invalid state). Each regular point is compared with "
    "the evaluation of this point alone on fresh objects, and with itself in other batches. "
    "Non-trivial: at least two points compared.",
    measure="distinct histories: hash of the sequence of (target, partition, permutation, shape, damage)",
    real=[GRAPH, "torch autograd (1 run in 15)"],
    stub=["user-defined material models (README templates)"],
    probes=["regular_points_beside_damaged"],
    assumptions=[
        "the point alone on fresh objects in a pristine process is the reference",
        "relative tolerance 1e-8 per point (1e-4 with torch, single precision); equal stretches 1e-6",
    ],
)

meta(
    "P13",
    runs={"quick": 1500, "thorough": 40000},
    torch_every=12,
    technique="simulated load paths with interleaved evaluations and faults; work of the stress against documented energies",
    note="Energies are those of the documentation, written independently in numpy; models with state variables are excluded.",
    rule="A run drives 1-6 integration points along 1-5 path segments (straight, stretched, "
    "twisted, volumetric, sheared, rigidly rotated, closed) and integrates the stress power "
    "of one space in its configuration (force, area, finalize; unit systems from 1e-12 to "
    "1e9) by Gauss quadrature, while tangents, other spaces on shared objects, interrupted "
    "and failing calls, damaged inputs, copies and overwritten results come in between. "
    "Non-trivial: at least one segment balanced.",
    measure="distinct runs: hash of (space, configuration, framework, model kind, segment kinds, events, shape)",
    real=[GRAPH, "torch autograd (1 run in 12)"],
    stub=["user-defined material models (README templates)", "the solver which follows the path"],
    probes=["rigid_rotation_does_no_work", "closed_cycle"],
    assumptions=[
        "the documented energies (independent numpy code) are the reference",
        "relative tolerance 2e-7 (2e-4 with torch, single precision)",
    ],
)

meta(
    "P12",
    runs={"quick": 700, "thorough": 20000},
    torch_every=12,
    technique="simulated incremental Newton solver with rejected, interrupted and restarted steps; progress against the exact derivative",
    note="The exact derivative is a central difference of the package's own stress (fresh objects, pristine process); wrong stresses are decided by P13.",
    rule="A run solves 1-3 load increments of 1-6 integration points with 1-6 free components "
    "of the deformation gradient, with one space in its configuration (force, area, finalize; "
    "unit systems from 1e-12 to 1e9) parallel to a stabilizing body of the solver, while "
    "interrupted and failing calls, damaged inputs, rejected steps, line searches, "
    "evaluations of other spaces on shared objects and restarts come in between. Every "
    "iteration compares the tangent with the exact derivative, every step the number of "
    "iterations with those of the exact derivative. Non-trivial: at least one step solved.",
    measure="distinct runs: hash of (space, configuration, framework, model kind, free components, orders, events, shape)",
    real=[GRAPH, "torch autograd (1 run in 12)"],
    stub=["user-defined material models (README templates)", "the Newton solver and its stabilizing body"],
    probes=["steps_solved"],
    assumptions=[
        "central differences of the stress on fresh objects are the exact derivative (relative error below 1e-7)",
        "tolerance of the tangent 2e-6 (1e-2 with torch, single precision), of the iterations +1 (+2 with torch)",
    ],
)

meta(
    "P17",
    runs={"quick": 1100, "thorough": 30000},
    torch_every=20,
    technique="simulated sessions which change parameters and settings of live objects between and within evaluations and interrupted calls",
    note="Only public attributes which the constructors document are changed, by assignment (array items only of arrays the simulation was given).",
    rule="A run builds an object graph and simulations and executes 10-26 events: evaluations, "
    "changes of model parameters (also from within the evaluation of another object), exchanged "
    "models, frameworks, load cases and material factories, changed space settings, interrupted "
    "evaluations. Non-trivial: at least one change and three compared evaluations.",
    measure="distinct histories: hash of the sequence of (event, object, method, changed attribute)",
    real=[GRAPH, "hyperelastic.lab (Simulation, Experiment, load cases)"],
    stub=["user-defined material models", "material factories"],
    probes=[],
    assumptions=["objects newly created with the current parameters, evaluated in a pristine process, are the reference"],
)

meta(
    "P18",
    runs={"quick": 800, "thorough": 30000},
    torch_every=20,
    technique="simulated sessions with checkpoints at arbitrary moments, crashes and restarts in the same and in other processes",
    note="Checkpoints are pickles and copies made between library calls or from within the callbacks of the user (material model, material factory).",
    rule="A run builds an object graph and (40 %) an optimizer and executes 8-22 events: "
    "evaluations, fits, checkpoints between or within them, restores in this or in another "
    "process, crashes, deep and shallow copies, changes of parameters, experiments and masks of one instance, "
    "interrupted evaluations; at the end all living instances are evaluated. Non-trivial: at "
    "least one checkpoint or copy and three compared evaluations.",
    measure="distinct histories: hash of the sequence of (event, instance, object, method)",
    real=[GRAPH, "hyperelastic.lab"],
    stub=["user-defined material models", "material factories"],
    probes=[],
    assumptions=["fresh objects with the parameters at the time of the checkpoint, evaluated in a pristine process, are the reference"],
)

meta(
    "P19",
    runs={"quick": 115, "thorough": 6000},
    torch_every=25,
    technique="simulated long histories with failing and interrupted evaluations, memory accounted at quiescent points",
    note="Memory is what tracemalloc accounts for (Python objects and numpy arrays), the references held by living containers (not in runs with plots) and, for torch, the living tensors.",
    rule="A run repeats a random sequence of 2-14 operations (evaluations at all levels, tensor "
    "functions, fits, simulations, plots, newly built or copied objects, interrupted and failing "
    "calls) 19 times with other data (and maybe other batch sizes) and compares bytes, references "
    "and tensors in use after 3, 11 and 19 repetitions; if they grow twice, the history goes on "
    "to 163 repetitions, and growth has to persist. Non-trivial: at least one operation.",
    measure="distinct histories: hash of the sequence of operations, models, spaces and shapes",
    real=[GRAPH, "hyperelastic.lab", "matplotlib, scipy.optimize"],
    stub=["user-defined material models", "material factories"],
    probes=[],
    assumptions=[
        "growth of memory below 40 kB in 8 repetitions is noise (a field of scalars per repetition is 128 kB); references are counted exactly",
        "what stops growing within 163 repetitions is bounded",
    ],
)

meta(
    "P20",
    runs={"quick": 1000, "thorough": 30000},
    torch_every=10,
    technique="simulated sessions in which the environment of the process changes between the calls",
    note="Fits and plots run with the lenient floating-point and warning settings only (scipy and matplotlib themselves may warn).",
    rule="A run executes 8-24 events: changes of floating-point error handling, warning filters, "
    "print options, random state, directory, environment variables, garbage collection, ufunc "
    "buffers, clocks (with jumps), plot settings and gradient mode of torch, and evaluations at "
    "all levels, tensor functions, simulations and fits. Non-trivial: at least one change and "
    "two compared evaluations.",
    measure="distinct histories: hash of the sequence of (event, setting, object, method)",
    real=[GRAPH, "hyperelastic.lab"],
    stub=["user-defined material models", "material factories", "clocks"],
    probes=[],
    assumptions=["the same calls in a pristine process with default settings are the reference"],
)

meta(
    "P21",
    runs={"quick": 450, "thorough": 15000},
    technique="simulated finite-element solver (FElupe) with interleaved problems, rejected, interrupted, crashed and restarted increments",
    note="Only materials in the default configuration (first Piola-Kirchhoff stress), as FElupe needs it. Increments for which also the undisturbed solution finds no equilibrium are left out.",
    rule="A run solves 1-3 small finite-element problems (3D, plane strain, axisymmetric; linear and "
    "quadratic elements) of bodies which share spaces, frameworks and models, one assembly of one "
    "problem at a time as the scheduler decides, with increments which are abandoned, interrupted at "
    "any line or by the material model, crashes with restart from the last checkpoint and copied "
    "objects. Every equilibrium is compared with the undisturbed solution by fresh objects in a "
    "pristine process, with the balance of forces and moments, and with the documented strain energy. "
    "Non-trivial: at least two accepted increments.",
    measure="distinct histories: hash of the sequence of (problem, event, increment) and of the interleaving of the assemblies",
    real=[GRAPH, "FElupe (meshes, fields, assembly, solid bodies), scipy.sparse"],
    stub=["Newton solver and increment control", "user-defined material models"],
    probes=[],
    assumptions=["displacements and forces of two converged solutions agree to 1e-6 (residual 1e-10)"],
)
