"""One entry per claimed property: text (properties.jsonl), rule (evidence), and check module."""
CHECKS = {}
NOT_APPLICABLE = []


def prop(pid, **kw):
    kw.setdefault("level", "other")
    CHECKS[pid] = kw


def na(pid, **kw):
    NOT_APPLICABLE.append(dict(id=pid, **kw))


prop("C01", module="c01_results",
 title="Every returned result object is coherent: success and failure never mix",
 statement="Every result object returned by an algorithm, tool, loader or serializer is coherent on every path: whenever its convergence or success flag is false at return, its status code (when the type has one) is a failure code and its message or failure reason (when the type has one) is filled in; whenever the flag is true, the status is the success code. This holds whether the result is built in place, by a constructor or factory, by a helper, or handed through from another solver.",
 quantifier=dict(over=["inputs"], text="every path to every return of every function returning (or filling) a result type, hence every input"),
 why="Tests sample a handful of failing inputs per solver; most failure exits (bracket exhausted, singular pivot, stagnation, degenerate domain) are never driven, so a missing or stale status on one exit passes.",
 files=["mml/algorithms", "mml/tools", "mml/core/AlgorithmTypes.h"],
 mechanism=[dict(name="AlgorithmStatus and per-algorithm config/result structs", where="mml/core/AlgorithmTypes.h"), dict(name="detailed solver entry points", where="mml/algorithms/RootFinding/RootFindingMethods.h"), dict(name="tool result factories", where="mml/tools/serializer/SerializerBase.h")],
 rule="Path-sensitive typestate over every function that returns a result type (36 types recognised structurally: a bool converged/success flag with a status enum and/or a message): an abstract state per result variable tracks {flag, status class, message empty?}, branch conditions refine it, calls are replaced by summaries of the callee's return states (fixpoint), loops run to a fixpoint. Obligation per function: no return state is incoherent.",
 technique="interprocedural path-sensitive typestate analysis on the clang AST",
 level_note="Every path of every result-returning function is covered by abstract interpretation; infeasible-path precision is limited to conditions on tracked fields. Assumes result fields are only changed through the analysed assignments/calls; trusts clang's AST and the extractor.")

prop("C02", module="c02_shared",
 title="No hidden shared state: const use never writes, solver calls are reentrant",
 statement="Const member functions write neither to their own object nor to anything reachable from other threads, and no library function writes namespace-scope, static or function-local static storage that is not atomic, thread-local or initialised exactly once. Hence concurrent const use of one object and concurrent solver calls on distinct objects never share mutable state.",
 quantifier=dict(over=["schedules", "histories"], text="every interleaving of concurrent const calls and of solver calls on distinct objects"),
 why="A data race or a value cached behind const shows only under particular schedules or call histories; the suite is single-threaded for all of these.",
 files=["mml/base", "mml/core", "mml/algorithms", "docs/THREADING.md"],
 mechanism=[dict(name="const-correct evaluation interfaces", where="mml/interfaces/IFunction.h"), dict(name="thread-local precision context", where="mml/MMLBase.h")],
 rule="Interprocedural write-effect analysis: every function gets a summary of the storage it may write (members of this including mutable ones and through const_cast, reference/pointer parameters, static storage), closed over calls and virtual overriders. Obligations: each const member's summary has no this-write, no function's summary contains non-atomic static storage, each static object is const/atomic/thread_local/initialise-once.",
 technique="interprocedural write-effect (purity) analysis on the clang AST",
 level_note="Covers all const members and all static objects of the headers. Writes through user-supplied callables and iterators/streams are the caller's. A short table of documented single-owner classes (solver caches, table printer) is excepted by name with a reason each.")

prop("C03", module="c03_pool",
 title="Thread pool: no races, lost wakeups, lost tasks or exceptions; clean shutdown",
 statement="In the thread pool every shared non-atomic member is accessed only under its mutex, every change that can satisfy a waiting condition is followed by a suitably ordered notification reaching every waiter it concerns, and a task taken from the queue stays counted until it has finished, whether it returns or throws. A task's exception never escapes its worker and is always recorded, user code is never called under a lock, and destruction requests the stop, wakes all workers, drains the queue and joins every thread.",
 quantifier=dict(over=["schedules"], text="every interleaving of any number of client threads, workers, throwing tasks and the destructor"),
 why="The tests run a few schedules on one machine; a missing notification or an unlocked read needs one specific interleaving to hang or race.",
 files=["mml/tools/ThreadPool.h"],
 mechanism=[dict(name="worker loop, enqueue, wait and destructor", where="mml/tools/ThreadPool.h")],
 rule="Every member function and thread entry of each mutex-owning class is unfolded into its event sequences (RAII lock scopes, member accesses, waits with their predicates, notifications, user calls normal/throwing, joins, branch facts). Rules on all sequences: inferred guarded-by, no self-deadlock, acyclic lock order, predicate re-check on waits, enabling write => ordered notification, removal only after same-critical-section non-emptiness, task counting balanced and atomic with removal, exceptions recorded and contained, user code and joins outside locks, destructor protocol.",
 technique="lockset and event-sequence (typestate) analysis on the clang AST",
 level_note="All control paths with loops unrolled once (facts used do not cross iterations). Assumes std::mutex/condition_variable semantics and sequentially consistent atomics as written; liveness under OS scheduling is not claimed.")

prop("C04", module="c04_init",
 title="No indeterminate values: everything is initialised before it is used",
 statement="After any constructor completes, every arithmetic, enumeration and pointer member of the object has been given a value, on every path. No local variable and no field of a local result or record is read, returned or copied before it has been assigned on every path leading there, including loops that run zero times, early exits, switch values outside the enumerators and comparisons that are false for NaN.",
 quantifier=dict(over=["inputs"], text="every constructor and every path of every function, hence every input"),
 why="An uninitialised value usually reads as zero or as the last call's stack contents, so tests pass; only the specific path (zero iterations, NaN data, early exit) exposes it, and then nondeterministically.",
 files=["mml"],
 mechanism=[dict(name="result/config aggregates with in-class initialisers", where="mml/core/AlgorithmTypes.h"), dict(name="geometry, field and system classes with several constructors", where="mml/base/Geometry"), dict(name="solver loops assigning their outputs inside branches", where="mml/core/LinAlgEqSolvers")],
 rule="Definite-assignment dataflow over every function and constructor (delegation, bases, member subobjects and record fields included; calls use summaries of which reference parameters and members they always assign). Obligations: at every normal exit of a constructor no scalar part is unassigned; each read, return or copy of a tracked local or field is dominated by an assignment on all paths (conditions relating a guard flag or an at-least-once loop to the assignment are honoured).",
 technique="definite-assignment dataflow analysis on the clang AST",
 level_note="Covers all constructors and all locals/record fields declared without an initialiser. Array elements are tracked as a whole (filled element-wise by a loop counts as assigned); values reached through raw pointers are not tracked.")


prop("C05", module="c05_except",
 title="Failures surface: converted or propagated as configured, never swallowed",
 statement="With the convert policy no exception leaves a detailed evaluation call, and no result-returning serializer or safe loader call lets a standard exception escape; with the propagate policy the caller gets the exception. No handler swallows: each rethrows, returns or records a failure (never a success), keeps the original text in failure results, and reports singular-matrix and invalid-input exceptions under their own status codes. Everything thrown derives from the standard exception class and is caught by reference, no created exception is left unthrown, and nothing can leave a destructor or a function promising not to throw.",
 quantifier=dict(over=["inputs", "fault points"], text="every throw site and every call that may throw (including user callables) on every path into a handler or out of an entry point"),
 why="Each handler needs its own failing input at its own depth; the suite drives only a few exception classes through a few of the 116 policy entry points and no throwing user callable through most writers.",
 files=["mml/core/AlgorithmTypes.h", "mml/MMLExceptions.h", "mml/core", "mml/algorithms", "mml/tools"],
 mechanism=[dict(name="EvaluationExceptionPolicy and the Execute...Detailed wrappers", where="mml/core/AlgorithmTypes.h"), dict(name="serializer and loader result types", where="mml/tools/serializer/SerializerBase.h"), dict(name="exception hierarchy", where="mml/MMLExceptions.h")],
 rule="Exception-escape fixpoint over the call graph (throw sites, known-throwing standard calls, user callables, virtual overriders; handlers subtract by class hierarchy; branches on the exception policy are decided per assumed policy). Obligations: escape set empty for policy functions under convert, for result-reporting writers and safe loaders, for noexcept functions and destructors; user exceptions escape under propagate; every throw operand derives from std::exception; every handler is reachable, by reference, and on all its paths rethrows, returns a failing result (typestate), or records; text and status rules for failure results.",
 technique="interprocedural exception-escape analysis and handler typestate on the clang AST",
 level_note="Allocation failure and exceptions from stream/iterator internals are outside the model; a user callable is assumed to throw classes derived from std::exception; range accessors of user surfaces are assumed not to throw. Empty handlers are accepted only in destructors and around a user's error callback inside another handler.")

prop("C06", module="c06_bounds",
 title="Element access stays in range; inputs' sizes are checked before they are used",
 statement="No loop or fixed-offset access reads or writes an element outside its vector, matrix, table or array, and an operation that combines several caller-supplied vectors, matrices or lists checks that their sizes fit before indexing one by the extent of another. Empty or too-short inputs are rejected or handled before a first, last or fixed element is touched. Accessors that promise a bounds or range error throw it for every out-of-range index, including negative ones and the index equal to the size.",
 quantifier=dict(over=["inputs"], text="every element access in the library and every combination of sizes and indices a caller can pass"),
 why="The suite calls operations with matching, non-empty sizes; an out-of-range read usually returns whatever lies next in memory, so even a test that reaches it passes.",
 files=["mml/base", "mml/core", "mml/algorithms", "mml/systems", "mml/tools"],
 mechanism=[dict(name="vector and matrix containers", where="mml/base/Vector"), dict(name="matrix containers", where="mml/base/Matrix"), dict(name="linear solvers and decompositions", where="mml/core/LinAlgEqSolvers"), dict(name="ODE/DAE solution storage", where="mml/base/ODESystemSolution.h")],
 rule="Symbolic linear-inequality dataflow over every function: each container extent is a symbol, tests/throwing guards/loop ranges/constructor postconditions/class invariants give linear facts, every element access is classified proved / open / refuted (an extreme iteration of its loops is outside). Violations: R1 refuted; R2 an operand indexed over the range of another operand's (or another dimension's) size with no path fact relating the two; R3 first/last/fixed element of an input with no fact about its size; R4 an index argument of a checked accessor not confined by its check.",
 technique="symbolic interval/linear-inequality dataflow for array bounds on the clang AST",
 level_note="About 72% of the accesses are proved in range (Fourier-Motzkin over path facts); the remaining ones are listed per file as undecided in the evidence and are reported only when one of the four rules applies. ODE/DAE driver internals (sizes set by the system object) are exempt from R2/R3 but not from R1.")

prop("C07", module="c07_io",
 title="Saves and loads report success only when all data was written or read",
 statement="A function that saves to a file or stream reports success only on paths where the output stream was tested after the last operation on it and found good, so a file that cannot be opened, a full disk, a failed close or a stream that was already broken is always reported as a failure. A function that loads from a file or parses a stream reports success only after testing that every extraction succeeded, so truncated or malformed input is always reported as a failure. The outcome returned by a nested save, header writer or load is never discarded.",
 quantifier=dict(over=["inputs", "crash_points"], text="every path of every saving/loading function, with the stream failing at any operation"),
 why="Tests write small files to a writable disk and read back what they wrote; a stream that fails part-way, or a truncated file, is never exercised.",
 files=["mml/tools/serializer", "mml/tools/data_loader", "mml/tools/ConsolePrinter.h", "mml/base/Vector/Vector.h"],
 mechanism=[dict(name="serialization results and header writers", where="mml/tools/serializer/SerializerBase.h"), dict(name="matrix and vector file formats", where="mml/tools/serializer/MatrixIO.h"), dict(name="table export", where="mml/tools/ConsolePrinter.h")],
 rule="Path-sensitive typestate over every stream a function owns or receives (new / clean / dirty / failed / error-cleared / read-to-end): every insertion, extraction, close or call that receives the stream makes it dirty, testing it (operator bool, operator!, good, fail, or a helper whose summary tests it) refines both branches. Obligation: at each exit that can report success no stream is dirty, failed or error-cleared. Second rule: no call returning a save/load outcome is a discarded expression, and no stored outcome is unread.",
 technique="interprocedural path-sensitive typestate (stream protocol) on the clang AST",
 level_note="Covers every function of the library that owns a file or string stream or reports the outcome of writing to a caller's stream. Whether the bytes written are the right ones is not decided here (C08 decides layout agreement).")

prop("C09", module="c09_coeff",
 title="Formula coefficients satisfy the order conditions that define the method",
 statement="Every finite-difference derivative (scalar, vector, tensor, curve, surface, Jacobian, left-, right- and central-sided) is exact, as coded, for all polynomials up to the degree its name promises and perturbs only the coordinates it names. Every explicit integration step, fixed or adaptive, including reuse of a stored derivative, error estimate, rejected attempt and dense output, combines its stages with coefficients that satisfy the order conditions of its documented order. Every tabulated quadrature rule, with its embedded lower rule, integrates polynomials exactly up to its design degree, and the mathematical constants are correct to double precision.",
 quantifier=dict(over=["inputs"], text="every function differentiated or integrated, every point, step size, interval and system dimension, on every accepted and rejected path of a step"),
 why="A wrong coefficient, a missing restore of a perturbed coordinate or a reused stale derivative lowers the order of accuracy without failing a tolerance chosen for a few smooth functions and small steps.",
 files=["mml/core/Derivation", "mml/algorithms/ODESolvers", "mml/core/Integration", "mml/MMLBase.h"],
 mechanism=[dict(name="finite-difference formulas", where="mml/core/Derivation/DerivationRealFunction.h"), dict(name="fixed-step calculators", where="mml/algorithms/ODESolvers/ODEStepCalculators.h"), dict(name="adaptive steppers with error control and dense output", where="mml/algorithms/ODESolvers/ODESteppers.h"), dict(name="Gauss-Kronrod rules", where="mml/core/Integration/GaussKronrod.h")],
 rule="Abstract interpretation of the source in a domain of exact linear forms: values are polynomials with rational coefficients over opaque atoms (function samples f(x + c*h*e_i), stage derivatives, parameters); loops over coordinates are generalised to one generic coordinate. The resulting form is compared with the defining equations: Taylor moment conditions up to the promised order for each difference formula (sampling only the named coordinates); all rooted-tree order conditions for the Butcher tableau read back from each accepting exit of a step, its embedded rule, its next-step derivative, its dense-output endpoint conditions; monomial exactness for quadrature rules.",
 technique="symbolic linear-form abstract interpretation of the clang AST checked against order conditions",
 level_note="Decides the coefficients as coded, in exact arithmetic; rounding error, step-size selection and convergence on particular problems are not claimed. Formulas whose value does not reduce to a linear form are listed as undecided in the evidence (implicit methods, Romberg-type extrapolation of integrals).")

prop("C10", module="c10_compile",
 title="Every header stands alone and every named type works in full",
 statement="Each public header can be included on its own, more than once, in any order with the others and from any number of source files of one program. Every member of every container, tensor, polynomial, function, solver, integrator and result type the library names or documents can be used with every element type and dimension it is offered for.",
 quantifier=dict(over=["inputs"], text="every header, inclusion order and number of source files; every member of every offered instance of every class template"),
 why="Tests include headers together in a few orders and call the members they need with the default element type; a member of a template is not even type-checked until someone calls it, and a missing include shows only in a program that includes that header first.",
 files=["mml"],
 mechanism=[dict(name="umbrella-free headers", where="mml"), dict(name="container templates and their aliases", where="mml/base"), dict(name="coordinate transformations and solvers", where="mml/core"), dict(name="integrators and steppers", where="mml/algorithms")],
 rule="Type-level witnesses decided by the compiler's semantic analysis, generated from the current headers: one translation unit per header that includes nothing else (twice), all headers in path order and in reverse, an explicit instantiation of every class template instance the library gives a name to or documents (146 listed, aliases added as they appear), and an enumeration of the definitions all headers produce, none of which may have strong external linkage. Each rejected construct is reported with the header or member it lies in.",
 technique="compile-fail witnesses: generated translation units and explicit instantiations type-checked by clang, linkage of definitions read from the IR",
 level_note="Decides acceptance by the compiler, not results. Three members that have no meaning for an instance (interpolation with a field wider than the coefficients, a unit vector of complex elements, numbered vertices with text labels) are exempt; headers in detail, impl or internal folders need not stand alone.")

prop("C11", module="c11_budget",
 title="Running out of iterations or steps is never passed off as success",
 statement="When an iterative or stepping computation stops because its iteration, step or evaluation limit is reached, the caller can tell: an exception is thrown, or the returned result's success flag, status code or boolean outcome says so; a routine that builds on another one treats that outcome as a failure instead of using the value. An integration that ends normally has reached the requested end of its interval, also when the interval is not a multiple of the step.",
 quantifier=dict(over=["inputs"], text="every limited loop in the library, every path on which its limit is reached, every caller of such a routine"),
 why="Reaching a limit needs a hard function, a defective matrix, a far quantile or a very small limit; the suite's well-behaved problems converge long before, so a value that silently never converged passes.",
 files=["mml/algorithms", "mml/core", "mml/systems"],
 mechanism=[dict(name="root finders and minimisers", where="mml/algorithms/RootFinding, mml/algorithms/Optimization.h"), dict(name="eigenvalue and singular value iterations", where="mml/algorithms/EigenSolverHelpers.h, mml/core/LinAlgEqSolvers"), dict(name="ODE, DAE and BVP drivers", where="mml/algorithms/ODESolvers, mml/algorithms/DAESolvers"), dict(name="quantiles and special functions", where="mml/algorithms/Statistics"), dict(name="adaptive integration", where="mml/core/Integration")],
 rule="Every loop that counts against a limit and can also be left by meeting its goal is found structurally. A path-sensitive execution marks the paths on which the limit ends the loop (and the paths on which a called limited routine reports failure) and follows them to every exit; a mark is discharged by an exception, a failing flag, status or bool, re-entry of the loop, or a later comparison that establishes the loop's own completion criterion. An exit still marked is reported, as is a discarded bool outcome, an early break out of an integration loop with a success status, and an integration loop whose end test leaves out more than a negligible part of a step.",
 technique="interprocedural path-sensitive typestate analysis of limited loops on the clang AST",
 level_note="Whether a convergence criterion is itself strict enough is not judged. Eleven best-effort routines that document their outcome as the best value found (step-length searches, Richardson tableaux, limit sampling, probing runs) are exempt and listed in DESIGN.md; loops over container elements are not limited loops.")

prop("C12", module="c12_calc",
 title="Analytic derivatives, inverses and invariants match the functions beside them",
 statement="Every Jacobian a dynamical system or map supplies is the matrix of partial derivatives of its own right-hand side, every quantity it calls conserved is constant along its flow, and every divergence or determinant it announces is the one of its right-hand side. Every function of a dual number carries the exact derivative, every density is the derivative of its distribution function, quantile functions undo distribution functions, and inverse coordinate transformations undo the transformation for all parameters and agree with their component functions. Fields documented as source-free or irrotational have zero divergence or curl.",
 quantifier=dict(over=["inputs"], text="every state, parameter value and argument at which the formulas are defined, on every branch"),
 why="A wrong entry, sign or parameter in a hand-written derivative or inverse is invisible at the symmetric points, default parameters and loose tolerances tests use, and only slows or biases a solver that consumes it.",
 files=["mml/systems", "mml/core/Derivation/ForwardAD.h", "mml/algorithms/Statistics", "mml/core/CoordTransf", "mml/core/Fields.h"],
 mechanism=[dict(name="hand-written Jacobians and invariants", where="mml/systems/ContinuousSystems.h"), dict(name="dual-number rules", where="mml/core/Derivation/ForwardAD.h"), dict(name="distributions", where="mml/algorithms/Statistics/Distributions.h"), dict(name="coordinate transformations", where="mml/core/CoordTransf/CoordTransf3D.h"), dict(name="model fields", where="mml/core/Fields.h")],
 rule="Value-flow analysis of both members of each pair: reaching definitions are substituted until every output is a closed term over the inputs and members, separately for each feasible combination of branches, and members take the terms the class's own constructor gives them. One term is differentiated by the rules of calculus (or composed with its partner) and the two are compared in an algebraic normal form; terms without a common normal form are reported only when they differ at most sample points of the branch (as terms: no code is executed).",
 technique="value-flow analysis to closed terms on the clang AST, formal differentiation and term comparison",
 level_note="In exact arithmetic; loops that do not reduce to a closed term (iterative quantiles, integrators) are listed as undecided. Terms compared without a normal form are counted separately; comparing terms at sample points can miss a difference confined to a null set, never invent one.")

prop("C13", module="c13_laws",
 title="Vector, quaternion and geometry formulas obey their defining laws",
 statement="Every measure, point, normal, angle, distance, projection, intersection and predicate the geometric shapes, lines, planes, circles, boxes, polygons, triangles, surfaces and solid bodies report satisfies the identity that defines it, and the faces of a solid enclose its volume, are closed and face outward. Vector, point and quaternion operations obey the algebra they stand for in every coordinate system they are offered in, and the planar and spatial intersection and enclosing-circle helpers return points that satisfy the definitions.",
 quantifier=dict(over=["inputs"], text="every shape parameter, point and vector for which the operation is defined, on every branch of the code"),
 why="Tests use axis-aligned, unit, regular or origin-centred examples, at which a wrong term, sign, edge or factor is invisible; the identities hold for every shape or for none.",
 files=["mml/base/Geometry", "mml/base/Vector", "mml/base/Quaternions.h", "mml/base/BaseUtils", "mml/algorithms/CompGeometry"],
 mechanism=[dict(name="shape formulas", where="mml/base/Geometry/GeometryCore/Geometry2DShapes.h"), dict(name="solid bodies and their faces", where="mml/base/Geometry/Geometry3DBodiesCore"), dict(name="vector types", where="mml/base/Vector/VectorTypes.h"), dict(name="quaternions", where="mml/base/Quaternions.h"), dict(name="intersection helpers", where="mml/algorithms/CompGeometry/Intersections.h")],
 rule="Value-flow analysis of each member, with the members, constructors and operators it calls entered: reaching definitions are substituted until every result is a closed term over symbolic shape parameters and coordinates, separately for each feasible combination of branches; a table of laws relates those terms (definitions, identities between members, closure and orientation of faces, predicates against the sign of their defining expression), and a term that differs from the one the law requires is reported with the member it came from.",
 technique="value-flow analysis to closed terms on the clang AST, term comparison against defining identities",
 level_note="In exact arithmetic and for arguments in general position: tolerances, degenerate shapes and rounding are not claimed. Polygons are covered with 3 to 5 vertices; hulls, triangulations and k-d trees are not. Terms without a normal form are compared at sample points, which can miss a difference confined to a small region.")

prop("C14", module="c14_own",
 title="Copies are complete and independent; nothing outlives what it refers to",
 statement="Copying, moving or assigning any object carries its whole value, and the new object neither refers into its source nor shares a resource that both release. No value, closure, view or object the library returns or keeps refers to a local object, by-value argument or temporary that has been destroyed, and objects keep copies, not references, of the data and functions given to them unless documented as views. No object is read after being moved from, and no reference or iterator into a container is used after the container was changed.",
 quantifier=dict(over=["inputs", "histories"], text="every class, every function and every path, hence every sequence of copies, moves and destructions"),
 why="A dangling reference or shared pointer usually still reads the old bytes, and copy elision hides most copies in tests; only a copy that outlives its source, or a reallocation at the wrong moment, exposes it.",
 files=["mml"],
 mechanism=[dict(name="coordinate transformations with bound component functions", where="mml/core/CoordTransf"), dict(name="matrix storage and its row pointers", where="mml/base/Matrix"), dict(name="function wrappers", where="mml/base/Function.h"), dict(name="interpolators owning splines", where="mml/base/InterpolatedFunctions")],
 rule="Interprocedural borrow (points-to-storage) analysis: every function gets a summary of the storage its return value may refer to and of the references it stores into its object and its arguments, in terms of parameters, the object, its heap storage, locals and temporaries; a violation is a local or temporary that reaches a return value, a longer-lived object or a later statement. A class whose members refer to its own storage must not have an implicit copy or move, and a user-provided one must re-create them; user-provided copies and moves must transfer every field from the same field; a class that releases raw resources must define its copies; values of data and function types are not stored by reference outside a table of documented views. A flow-sensitive walk tracks moved-from variables and references bound into containers up to the operations that invalidate them.",
 technique="interprocedural borrow/escape and ownership analysis on the clang AST",
 level_note="Flow-insensitive within a function for references (over-approximate), flow-sensitive for moves and invalidation. References to interface objects (functions, systems) given by the caller are the library's documented non-owning style and stay the caller's duty. Heap cells are not distinguished; aliasing through indices is out of reach.")

prop("C16", module="c16_alias",
 title="In-place operations work when the argument is the object or one of its elements",
 statement="Every operation that changes an object in place gives the result it would give for an independent copy of its argument, also when the argument is the object itself or a value stored inside it. So scaling by an own element, adding an object to itself, assigning it to itself, inserting or removing by an own element and adding an edge with another edge's weight all behave as documented.",
 quantifier=dict(over=["inputs", "histories"], text="every mutating operation, every argument that may designate the object or a part of it, every size and value"),
 why="The result is right for every argument that is not aliased, and element order decides which entries go wrong; tests practically always pass a separate literal or object.",
 files=["mml"],
 mechanism=[dict(name="vector and matrix compound assignments", where="mml/base/Vector, mml/base/Matrix"), dict(name="graph mutation", where="mml/base/Graph.h"), dict(name="quaternions and dual numbers", where="mml/base/Quaternions.h, mml/core/Derivation/ForwardAD.h"), dict(name="bounding boxes and polygons", where="mml/base/Geometry")],
 rule="For every mutating method (and free compound operator) with a const-reference parameter of the object's own class, or of a type whose values the object holds and hands out references to, all writes into the object and all reads through the parameter are enumerated in evaluation order with accessors, helpers and lambdas inlined and places normalised to (field path, index). A read that can follow a write to an overlapping place, in sequence or in a later iteration of a common loop, is reported, unless a test of the two addresses separates them, the index advances with every common loop, or the write stores the argument's own value.",
 technique="may-alias read-after-write (dependence) analysis on the clang AST",
 level_note="Indices are compared as normalised expressions; an index that mentions each common loop's variable is taken to differ between its iterations. Arguments reached only through stored references, and non-const out-parameters that alias inputs, are outside the property.")

na("N01", title="Iterative solvers reach the requested tolerance whenever they claim to",
 statement="When a root finder, minimiser, eigenvalue or linear solver reports convergence, the true error of the returned value is within the requested tolerance.",
 quantifier=dict(over=["inputs"], text="every function, matrix and starting point"),
 why="Tests know the exact answer only for a few problems.", files=["mml/algorithms", "mml/core/LinAlgEqSolvers"],
 mechanism=[dict(name="convergence tests of the solvers", where="mml/algorithms/RootFinding/RootFindingMethods.h")],
 reason="The true error depends on the user's function values and on rounding at run time; no sound static argument in reach bounds it. The static shadow (flag, status and exit path agree) is C01.")
na("N02", title="Factorisations reproduce the matrix within a backward-error bound",
 statement="LU, QR, Cholesky, SVD and eigendecompositions reproduce the input matrix within a small multiple of machine precision.",
 quantifier=dict(over=["inputs"], text="every matrix"),
 why="Tests sample a few well-conditioned matrices.", files=["mml/core/LinAlgEqSolvers", "mml/algorithms/EigenSystemSolvers"],
 mechanism=[dict(name="decomposition solvers", where="mml/core/LinAlgEqSolvers")],
 reason="A quantity of floating-point run time: deciding it needs rounding-error analysis of data-dependent pivoting, outside static analysis of this source.")
na("N03", title="Saved data read back equals what was saved",
 statement="Loading a file written by the matching saver yields numerically identical data.",
 quantifier=dict(over=["inputs"], text="every matrix, vector, function table and trajectory"),
 why="Tests round-trip small well-behaved values only.", files=["mml/tools/serializer", "mml/tools/data_loader"],
 mechanism=[dict(name="savers and loaders", where="mml/tools/serializer/MatrixIO.h")],
 reason="Bit equality depends on decimal formatting and parsing performed by the standard library at run time. The static parts (stream state tested on every path) are C07.")
na("N04", title="Adaptive integration terminates within its step budget on solvable problems",
 statement="On smooth non-stiff problems the adaptive integrators finish before exhausting their step budget.",
 quantifier=dict(over=["inputs"], text="every smooth problem"),
 why="Tests run a few standard problems.", files=["mml/algorithms/ODESolvers"],
 mechanism=[dict(name="step size controller", where="mml/algorithms/ODESolvers/ODESteppers.h")],
 reason="Step counts depend on the user's right-hand side; termination for all inputs is not statically decidable here.")
na("N05", title="Geometric predicates are exact under rounding",
 statement="Intersection, containment and orientation predicates give the mathematically correct answer for all coordinates.",
 quantifier=dict(over=["inputs"], text="all coordinates, including nearly degenerate ones"),
 why="Tests use well separated configurations.", files=["mml/base/Geometry", "mml/algorithms/CompGeometry"],
 mechanism=[dict(name="epsilon comparisons", where="mml/base/Geometry")],
 reason="The predicates use tolerance comparisons in floating point; exactness is false near degeneracy by design and depends on runtime coordinates.")
