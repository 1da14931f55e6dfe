"""Writes properties.jsonl and MANIFEST.json (python3 tools/mkspec.py)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
Q = "modepy/quadrature/"
ALLSRC = ["modepy/shapes.py", "modepy/spaces.py", "modepy/nodes.py", "modepy/modes.py",
          "modepy/matrices.py", "modepy/modal_decay.py", "modepy/tools.py",
          Q + "__init__.py", Q + "jacobi_gauss.py", Q + "kronrod.py",
          Q + "transplanted.py", Q + "construction.py", Q + "vioreanu_rokhlin.py",
          Q + "xiao_gimbutas.py", Q + "witherden_vincent.py",
          Q + "jaskowiec_sukumar.py", Q + "grundmann_moeller.py",
          Q + "clenshaw_curtis.py"]


def mech(*ms):
    return [{"name": n, "where": w} for n, w in ms]


CACHES = [
    ("cached Kronrod rules", Q + "kronrod.py: _kronrod_nodes_weights (lru_cache)"),
    ("cached sausage-map coefficients", Q + "transplanted.py: lru_cache"),
    ("memoized inverse", "modepy/tools.py: AffineMap (memoize_method)"),
    ("lazily imported rule tables", Q + "xiao_gimbutas.py, vioreanu_rokhlin.py, "
     "witherden_vincent.py, jaskowiec_sukumar.py"),
]
STATE = [
    {"name": "process-wide caches", "meaning": "results kept between calls",
     "where": Q + "kronrod.py, " + Q + "transplanted.py"},
    {"name": "per-object memos", "meaning": "inverse of an affine map, bound by object",
     "where": "modepy/tools.py"},
    {"name": "module-level rule tables", "meaning": "shared constant data",
     "where": Q + "*_quad_data*.py"},
]

P = []      # claimed


def prop(id, title, statement, over, text, why, files, mechanism, how, note,
         state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
                  why=why, files=files, mechanism=mechanism, how=how, note=note,
                  state=state, observe=observe))


prop("C01", "Results depend on the arguments only, never on what was called before",
     "Every library call returns the same values, or raises the same error, as it does "
     "when it is the first call of a fresh process, whatever sequence of successful, "
     "failing or repeated calls (with the same or with neighbouring arguments) came "
     "before it in the process. Using an object once, evicting caches or collecting "
     "garbage does not change what it answers later.",
     ["histories"],
     "all histories of calls, including failed ones, cache evictions, object reuse and "
     "garbage collection, before the call in question",
     "Tests make each call once, in one fixed order, and compare with exact results to a "
     "tolerance; a stale or mis-keyed cache, a memo bound to the wrong object or a "
     "half-built table only shows for particular pairs of calls in a particular order.",
     ALLSRC, mech(*CACHES),
     "seeded call histories (repeats, neighbouring arguments, failing calls, eviction, "
     "gc, memory layouts) against a fresh-process reference for every call",
     "Seeded search over call histories; every call's outcome is compared with the "
     "outcome of the same call alone in a pristine forked process (bit-identical up to "
     "1e-9 relative). Trusts that the first call in a fresh process is right, and the "
     "catalogue of ~70 operations as the vocabulary.",
     STATE, ["return values and exceptions of the public API"])

prop("C02", "Results do not depend on how threads are scheduled",
     "Threads that call the library at the same time, on the same or on different "
     "arguments and on shared shapes, bases, rules and maps, each get exactly the "
     "results they would get alone, for every interleaving. No interleaving makes a "
     "call fail, hang or deadlock.",
     ["schedules"],
     "all interleavings, at source-line granularity, of a few threads making calls and "
     "sharing objects, from a cold process on",
     "No test runs two threads; a race between first use of a cache, table or memo and "
     "its completion needs a switch at one particular line.",
     ALLSRC, mech(*CACHES),
     "caller threads under a seeded line-level scheduler (random gaps, PCT, lock-step, "
     "rendezvous at shared-state writes), fresh-process reference",
     "Seeded search over schedules: real threads, one runnable at a time, switched at "
     "source-line (and lock) events chosen by the seed; each result compared with its "
     "fresh-process reference. Does not interleave inside numpy/LAPACK C code.",
     STATE, ["return values and exceptions per thread", "termination"])

prop("C03", "What a call returns belongs to the caller",
     "A caller may modify in place any array or list a call handed out, at any time, and "
     "no later call (with the same or with other arguments, in any thread of control) "
     "and no other live object returns different values because of it; the same holds "
     "for arrays the caller passed in and modifies after the call returned. Memory the "
     "library wants to keep is copied or handed out read-only.",
     ["histories"],
     "all histories of calls and in-place modifications of earlier results and of "
     "arguments already passed",
     "Tests never write into a returned array and then ask again; aliasing of cached "
     "arrays or shared tables is invisible until a caller does so.",
     ALLSRC, mech(("copy on hand-out", Q + "xiao_gimbutas.py, kronrod.py, "
                   "transplanted.py, witherden_vincent.py"), *CACHES),
     "seeded histories in which the simulated caller overwrites everything it was given "
     "or passed, with reference comparison and live-object checks",
     "Seeded search over histories of calls and caller writes; results compared with "
     "fresh-process references. Objects a user builds explicitly around their own "
     "arrays and documented views are excluded.",
     STATE, ["later return values"])

prop("C04", "Arguments are never modified, however the call ends",
     "No call writes to an array, list, rule, basis or other object passed to it: each "
     "is bit-for-bit unchanged, whatever its memory layout and writability, when the "
     "call returns, when it raises, and at any moment at which the caller's own code (a "
     "callback, another thread) can look. A read-only argument is accepted wherever a "
     "writable one is, with the same result.",
     ["inputs", "fault_sequences", "schedules"],
     "all calls, memory layouts, writability flags, error paths and observation points "
     "while the call is running",
     "Tests pass fresh contiguous arrays and throw them away; in-place arithmetic on an "
     "argument that is undone, or that happens only for one layout or only on an error "
     "path, goes unnoticed.",
     ALLSRC, mech(("out-of-place arithmetic", "modepy/modes.py, modepy/nodes.py, "
                   "modepy/matrices.py, " + Q + "construction.py")),
     "bit fingerprints of every argument at the end, at every callback and at random "
     "line events, under interrupts and callback faults",
     "Seeded search over operations, layouts, read-only flags, faults and observation "
     "points; bit-exact fingerprints. Observation is at Python line events and "
     "callbacks, not inside C code.",
     None, ["caller's arrays and lists during and after calls"])

prop("C05", "A failing user callback is passed on as it is and leaves nothing behind",
     "If a user-supplied function raises at any of its invocations, that same exception "
     "object reaches the caller, never swallowed, replaced, retried or turned into a "
     "value. Every later call, including the same one with a function that now works, "
     "gives the result it gives in a fresh process.",
     ["fault_sequences"],
     "every invocation of every user-supplied function, every exception type, and every "
     "continuation after the failure",
     "Tests only use callbacks that succeed; broad except clauses, fallbacks and "
     "half-updated caches only show when the k-th invocation fails.",
     ALLSRC, mech(("exceptions propagate", "modepy/matrices.py, modepy/tools.py, "
                   + Q + "kronrod.py, " + Q + "__init__.py, modepy/spaces.py"),
                  ("exceptions narrowly caught", "modepy/matrices.py, " + Q +
                   "kronrod.py, modepy/modes.py, modepy/nodes.py")),
     "exception injected at the k-th invocation of a user callback, identity of the "
     "exception and later results checked",
     "Seeded search over operations, invocation index, exception type (ordinary "
     "exceptions, library-used ones such as TypeError/LinAlgError/NotImplementedError, "
     "KeyboardInterrupt, SystemExit) and continuations.",
     STATE, ["exception identity", "later results"])

prop("C06", "Interrupting a call or running out of memory at any point is safe",
     "If a call is cut short at any instruction by an asynchronous interrupt (such as "
     "Ctrl-C), or any of its array allocations fails, the caller sees exactly that "
     "interrupt or a memory error, or the complete right result. Afterwards the same "
     "call repeated, and every other call, on old and on new objects, behaves as in a "
     "fresh process.",
     ["crash_points", "fault_sequences"],
     "every instruction boundary inside the library and every array allocation, and "
     "every continuation",
     "Tests never interrupt a call; a half-filled cache or a flag set before the work it "
     "announces needs an interrupt between two particular instructions.",
     ALLSRC, mech(*CACHES),
     "KeyboardInterrupt/MemoryError at seeded line or bytecode events, seeded numpy "
     "allocation failures through numpy's data-memory seam, then recovery histories",
     "Seeded search over interrupt points and allocation failures, each followed by a "
     "history compared with fresh-process references. Interrupts land at Python "
     "instruction boundaries outside the program's own clean-up code.",
     STATE, ["exception type", "later results"])

prop("C07", "A failed numerical substep never becomes a silently wrong result",
     "If a linear-algebra, eigenvalue, special-function or nonlinear-solver step inside "
     "a call reports failure, does not converge or returns not-a-number, the call either "
     "raises or returns something in which the breakdown is visible (NaN or infinity); "
     "it never returns plausible but wrong finite numbers. Once the fault is gone every "
     "call gives its fresh-process result, so nothing computed during the fault is kept.",
     ["fault_sequences"],
     "every numerical-library call made inside every operation, failing by exception, "
     "by reported non-convergence or by NaN, once or repeatedly, and every continuation",
     "LAPACK practically never fails on the tests' inputs, so error handling and the "
     "caching of results computed after a failed substep are never exercised.",
     ALLSRC, mech(("failures checked or propagated", Q + "transplanted.py (solver "
                   "status), " + Q + "kronrod.py, " + Q + "jacobi_gauss.py, "
                   "modepy/matrices.py, modepy/modal_decay.py"), *CACHES),
     "numpy.linalg and scipy entry points replaced by a fault-injecting seam, result "
     "visibility and later results checked",
     "Seeded search over substep, fault kind and continuation against fresh-process "
     "references; plausible but wrong finite substep results are outside the fault "
     "model.",
     STATE, ["return values and exceptions", "later results"])

prop("C08", "Calls leave process-wide state exactly as they found it",
     "A call does not change, even while it runs and the caller's code can look, any "
     "process-wide setting or stream it does not own: the global random state, numpy's "
     "error and print settings, warning filters, the recursion limit, the decimal "
     "context, the locale, environment, working directory, signal handlers, trace "
     "functions, garbage-collector settings, the import path, other packages' "
     "attributes, standard output and standard error; this holds whether it returns, "
     "raises, is interrupted or overlaps with calls in other threads. Conversely "
     "unusual but legal settings of these do not change its results.",
     ["histories", "schedules", "fault_sequences"],
     "all calls, endings (return, error, callback failure, interrupt), overlaps between "
     "threads, and legal prior settings",
     "Tests do not compare process state before and after, never under failures, and "
     "always run with default settings.",
     ALLSRC, mech(("no global writes; local generators and context managers",
                   "modepy/nodes.py (random nodes), modepy/modes.py, " + Q +
                   "__init__.py, modepy/modal_decay.py")),
     "process-state snapshots around and inside calls under odd settings, faults, "
     "interrupts and seeded thread overlap",
     "Seeded search over prior settings, calls, endings and thread overlaps; explicit "
     "list of observed state in sim/procstate.py.",
     None, ["global interpreter and numpy state", "stdout and stderr"])

prop("C09", "Results never depend on what memory contained before",
     "Every number a call returns is determined by its arguments: no result contains or "
     "is computed from memory the library obtained but did not write, whatever that "
     "memory happened to contain.",
     ["configurations", "inputs"],
     "all contents of freshly obtained array memory, for all calls",
     "Fresh memory is nearly always zero or a leftover of an identical computation in a "
     "test process, so an unwritten entry looks right.",
     ALLSRC, mech(("np.empty/empty_like arrays completely filled",
                   "modepy/nodes.py, modepy/modes.py, modepy/matrices.py, "
                   "modepy/modal_decay.py, " + Q)),
     "simulated allocator behind numpy's data-memory seam hands out seeded hostile "
     "contents; comparison with the fresh-process reference",
     "Seeded search over operations and memory contents (NaN, Inf, huge, denormal, "
     "bytes, random streams). Covers numpy array data, not LAPACK work space.",
     None, ["return values"])

prop("C10", "Adaptive integration keeps its contract with any integrand",
     "For any integrand, the adaptive integrator asks only for points inside the given "
     "interval, stays within its evaluation budget, and stops early only when its error "
     "estimate meets the tolerances, returning estimates consistent with the answers it "
     "was given; it does not stop working nor overwork because of them. When the "
     "integrand answers wrongly for a while and then honestly again, it still returns "
     "the right integral or reports a large error, and it does not depend on the units "
     "of the problem.",
     ["inputs", "fault_sequences"],
     "all integrands (including history-dependent and transiently corrupted ones), break "
     "points, rules, tolerances and budgets",
     "Tests integrate a handful of smooth functions with default settings and look at "
     "the final number only.",
     [Q + "kronrod.py"], mech(
         ("heap of segments refined worst first", Q + "kronrod.py: quadgk"),
         ("budget and tolerance checks", Q + "kronrod.py: quadgk"),
         ("variable transformations for infinite intervals", Q + "kronrod.py")),
     "the integrand is a simulated party with seeded transient corruption; the query "
     "log is checked against contract invariants and reference integrals",
     "Seeded search over integrand behaviours; checks of the recorded conversation "
     "(abscissae, budget, stop condition, positive-weight bounds, recovery, unit "
     "scaling). Reference integrals are closed forms.",
     [{"name": "segment queue", "meaning": "open intervals with their error estimates",
       "where": Q + "kronrod.py: quadgk"}],
     ["queries made to the integrand", "(value, error estimate) returned"])

prop("C11", "A NaN or infinite integrand value is an error, never a number",
     "Whenever the integrand answers a query of the adaptive integrator with a "
     "non-finite value, at the first query or at any later one, transiently or for good, "
     "real or complex, the call raises a value error. It never returns a finite number "
     "computed past such an answer, never returns NaN, and later calls are unaffected.",
     ["fault_sequences", "inputs"],
     "every query of every conversation and every kind of non-finite answer",
     "The suite has no test with a non-finite answer in the middle of a refinement.",
     [Q + "kronrod.py"], mech(("finiteness check of each segment", Q +
                               "kronrod.py: quadgk")),
     "the simulated integrand gives a non-finite answer at a seeded query",
     "Seeded search over conversations, query number, value kind and duration.",
     None, ["exception raised"])

prop("C12", "Random nodes are valid for every stream of random bits",
     "Random nodes lie inside the reference shape, have the promised shape and count and "
     "are distinct, for every stream of bits the generator may produce, including "
     "constant, extreme, repeating or failing ones, and for generators shared between "
     "threads. All randomness comes from the generator passed in (without one, two calls "
     "differ), global random state is untouched, the work is bounded once the stream is "
     "honest, and an error or interrupt in the generator reaches the caller and leaves "
     "later calls right.",
     ["inputs", "fault_sequences", "schedules"],
     "all streams of random bits, shapes, node counts, thread interleavings and faults "
     "of the generator",
     "Tests sample a few default streams; extreme draws are practically never seen.",
     ["modepy/nodes.py", "modepy/shapes.py"],
     mech(("rejection sampling", "modepy/nodes.py: random_nodes_for_shape"),
          ("generator parameter", "modepy/nodes.py: random_nodes_for_shape")),
     "a bit generator written in C replays seeded honest and hostile bit streams "
     "through numpy's real Generator",
     "Seeded search over bit streams, shapes, counts, schedules, interrupts and "
     "generator faults. The distribution itself is not tested.",
     None, ["nodes returned", "draws consumed"])

prop("C13", "A missing optional package or failing import never corrupts results",
     "If an optional package is absent, or an import made by the library fails or is "
     "interrupted at any point, the call raises an error that says so or returns the "
     "right result by another documented route; it never returns a different number "
     "than with the package present. Calls that do not need the missing package work, "
     "and once the import works again every call gives its fresh-process result.",
     ["configurations", "fault_sequences"],
     "all subsets of optional packages absent, all import points failing with all "
     "exception kinds at all moments, and all continuations",
     "Tests run with everything installed and imports never fail.",
     ["modepy/nodes.py", "modepy/shapes.py", "modepy/tools.py", "modepy/modes.py",
      Q + "jacobi_gauss.py", Q + "transplanted.py", Q + "construction.py",
      Q + "xiao_gimbutas.py", Q + "vioreanu_rokhlin.py", Q + "witherden_vincent.py",
      Q + "jaskowiec_sukumar.py"],
     mech(("imports inside functions", Q + "*.py, modepy/tools.py, modepy/modes.py"),
          ("fallbacks without scipy", Q + "jacobi_gauss.py, " + Q + "construction.py")),
     "packages made absent and imports made to fail at seeded points through the import "
     "seam, then recovery histories",
     "Seeded search over absent packages, failing imports, interrupts inside table "
     "modules and continuations, against fresh-process references.",
     None, ["return values and exceptions"])

prop("C14", "Saved objects survive a transfer to another process",
     "Shapes, faces, spaces, bases and their functions, quadrature rules, maps and "
     "solver objects that support saving can be pickled or copied at any point of their "
     "use and restored in another process, any number of times: the restored object "
     "compares equal where equality is defined, hashes alike, and gives the same results "
     "as the original would. A computation checkpointed at any step and restarted in a "
     "fresh process after a crash continues along the same trajectory, and modifying a "
     "copy does not affect the original.",
     ["crash_points", "histories"],
     "every supported object, pickle protocol, moment of use, number of transfers and "
     "crash point",
     "Only freshly built shapes are pickled in the tests, in the same process.",
     ["modepy/shapes.py", "modepy/spaces.py", "modepy/modes.py", "modepy/tools.py",
      Q + "__init__.py", Q + "kronrod.py", Q + "construction.py"],
     mech(("frozen dataclasses, explicit state methods", "modepy/shapes.py, "
           "modepy/spaces.py"), ("memos per object", "modepy/tools.py: AffineMap"),
          ("functions as partials of module-level functions", "modepy/modes.py")),
     "objects saved at seeded moments in one simulated process, which then dies, and "
     "restored in a pristine one; crash/restart of an optimisation loop",
     "Seeded search over objects, protocols, use histories, transfers and crash points; "
     "every outcome compared with the unsaved object's fresh-process outcome.",
     STATE, ["equality, hash and results of restored objects"])

prop("C15", "Rule-table tools never leave wrong tables behind",
     "The scripts that convert published rules into the library's table format exit "
     "successfully only if the complete table, agreeing with every number of their "
     "source, has been written. If a read, write, download or the process itself fails "
     "at any point, what is left behind never loads as a table with other contents, and "
     "running the tool again once the fault is gone yields the right table.",
     ["crash_points", "fault_sequences"],
     "every input file, every I/O operation failing or tearing, every crash point, and "
     "the rerun after it",
     "The scripts have no tests.",
     ["contrib/weights-from-festa-sommariva.py", "contrib/weights-from-fortran.py",
      "contrib/weights-from-txt.py", "contrib/weights-from-womersley.py",
      "contrib/weights-from-jaskowiec-sukumar.py",
      "contrib/weights-from-witherden-vincent.py"],
     mech(("download to a temporary file, check, rename",
           "contrib/weights-from-womersley.py"),
          ("table written as Python source", "contrib/weights-from-*.py")),
     "scripts run in-process against a simulated disk and network with seeded errors, "
     "short reads, torn writes and crashes",
     "Seeded search over synthetic sources and fault points; outputs are parsed "
     "independently and compared with the source.",
     None, ["files left behind", "exit status"])

prop("C16", "Memory retained between calls is bounded",
     "In a process that keeps calling the library with ever new arguments, functions and "
     "objects, the memory the library holds on to between calls stops growing: objects "
     "the caller has dropped are released, except for caches whose size is bounded.",
     ["histories"],
     "all long histories of calls with distinct arguments",
     "A test process makes few calls of each kind and never looks at what stays alive.",
     ALLSRC, mech(("bounded caches", Q + "kronrod.py, " + Q + "transplanted.py"),
                  ("memos stored on the object", "modepy/tools.py")),
     "long simulated histories with ever-distinct inputs; liveness of dropped inputs "
     "and growth of retained objects and array memory measured by the harness",
     "Seeded search over operation mixes; growth is judged between two equal windows "
     "after warm-up, by live-object and live-byte counts (no clocks, no RSS).",
     STATE, ["weak references to inputs", "live objects and array bytes"])

prop("C17", "The library may be re-entered from a user callback",
     "User-supplied functions may themselves call any part of the library, including the "
     "very call that is running, and may suspend and resume such calls: both the inner "
     "and the outer call return what they return alone.",
     ["schedules", "histories"],
     "all pairs of outer and inner calls, all invocation points, and nesting depths",
     "No test calls the library from inside a callback of the library.",
     ALLSRC, mech(*CACHES),
     "seeded nesting of calls inside callbacks and at line events (as signal handlers "
     "and finalisers do), both outcomes against fresh-process references",
     "Seeded search over outer call, inner call (same, neighbouring, unrelated), "
     "invocation point and depth.",
     STATE, ["return values of inner and outer calls"])

prop("C18", "Replicas on differently configured processes agree",
     "Two processes given the same call agree on the result, whatever their hash seed, "
     "import order, optimisation flag, working directory, locale, environment, clock, "
     "thread, global random state or set of already imported packages.",
     ["configurations"],
     "all supported process configurations and all calls",
     "The test suite runs in one configuration.",
     ALLSRC, mech(("ordered containers, no environment reads", "modepy/spaces.py, "
                   "modepy/shapes.py, modepy/modes.py, modepy/nodes.py")),
     "fresh interpreters in seeded configurations with simulated clock and randomness, "
     "results compared with the reference replica",
     "Seeded search over configurations; each replica runs a seeded batch of calls in a "
     "new interpreter.",
     None, ["return values"])

prop("C19", "Every call ends after a bounded amount of work",
     "Whatever user functions answer, numerical substeps return and arguments contain "
     "(NaN, infinities, zeros, huge, denormal, contradictory or ever-changing values, "
     "repeated nodes, parameters out of range), every call returns or raises after an "
     "amount of work that is bounded by a fixed multiple of what an ordinary call of "
     "the same size takes (for the adaptive integrator: within its evaluation budget). "
     "No iteration relies on convergence alone to come to an end.",
     ["fault_sequences", "inputs"],
     "all answers of callbacks and substeps over time, all data and parameters",
     "Tests use data for which every iteration converges in a few steps; a loop without "
     "a cap ends there just the same.",
     ALLSRC, mech(("capped Newton iteration", Q + "kronrod.py: _eignewt"),
                  ("evaluation budget", Q + "kronrod.py: quadgk"),
                  ("bracketing loop", Q + "transplanted.py: _strip_map_parameter_m"),
                  ("rejection sampling", "modepy/nodes.py"),
                  ("Euclid's algorithm", Q + "grundmann_moeller.py")),
     "callbacks, numerical substeps and data falsified persistently or for a while by a "
     "seeded adversary; executed lines and callback invocations metered",
     "Seeded search over operations, adversaries and parameters; work counted in source "
     "lines of the library (limit 1000 x ordinary + 100000) and invocations of user "
     "functions, not in time.",
     None, ["executed source lines", "invocations of user functions"])

prop("C31", "A process forked off at any moment can use the library",
     "When a process that has used, or is just using, the library forks -- between calls, "
     "in a callback the library is invoking, or while other threads are inside the "
     "library at any point -- then every call made in the child returns what it returns "
     "in a fresh process, and none waits for something only a vanished thread could "
     "provide; calls in the parent are unaffected; the same holds for a child of the "
     "child. Random nodes drawn without a generator do not repeat across these processes.",
     ["crash_points", "schedules", "histories"],
     "all points at which a process can be duplicated, in all interleavings of threads",
     "Tests never fork; multiprocessing users (the default on Linux up to 3.13) do it "
     "all the time, with whatever state other threads have left half-way.",
     ALLSRC, mech(("process-wide caches", Q + "kronrod.py: kronrod, " + Q
                   + "transplanted.py: _strip_map_parameter_m"),
                  ("memoising classes", "modepy/tools.py, modepy/modes.py, modepy/shapes.py"),
                  ("default generator", "modepy/nodes.py: random_nodes_for_shape")),
     "real fork() at seeded points of seeded schedules (threads stalled where they touch "
     "state that outlives a call), the child's calls compared to a fresh process; the "
     "entropy source of every process is simulated",
     "Seeded search over operations, schedules and fork points; locks made by the library "
     "are simulated, so a wait that cannot end is decided, not timed.",
     None, ["return values", "termination"])

NA = [
    ("C20", "Quadrature rules integrate exactly what they claim to",
     "Every quadrature rule integrates all polynomials up to its declared exactness over "
     "its domain to rounding error, with weights that sum to the volume of the domain.",
     [Q + "__init__.py", Q + "xiao_gimbutas.py"], ("declared exactness", Q),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C21", "Orthonormal bases are orthonormal and span their space",
     "The functions of an orthonormal basis have mass matrix identity on the reference "
     "shape and span the declared polynomial space.",
     ["modepy/modes.py"], ("three-term recurrences", "modepy/modes.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C22", "Gradients are the derivatives of their basis functions",
     "Every gradient function agrees with the derivative of its basis function at every "
     "point of the shape.",
     ["modepy/modes.py"], ("grad_* functions", "modepy/modes.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C23", "Interpolation nodes are unisolvent and well conditioned",
     "For every space, the nodes have the dimension of the space, include the boundary "
     "where promised and give a moderate Lebesgue constant.",
     ["modepy/nodes.py", "modepy/tools.py"], ("warp & blend", "modepy/nodes.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C24", "Mass, differentiation and resampling matrices satisfy their identities",
     "Nodal matrices reproduce integrals, derivatives and interpolants of every function "
     "in the space exactly.",
     ["modepy/matrices.py"], ("Vandermonde solves", "modepy/matrices.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C25", "Faces, normals and volumes of reference shapes are consistent",
     "Face maps land on the boundary, normals point outward, and volumes and vertex "
     "counts agree with the geometry in every dimension.",
     ["modepy/shapes.py"], ("face construction", "modepy/shapes.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C26", "Submeshes tessellate their shape",
     "The sub-elements of a node submesh cover the reference shape without overlap and "
     "with positive orientation.",
     ["modepy/shapes.py"], ("submesh_for_shape", "modepy/shapes.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C27", "Tensor-product reshaping is an isomorphism",
     "Reshaping and un-reshaping arrays over tensor-product nodes is lossless and "
     "agrees with the node ordering.",
     ["modepy/tools.py"], ("reshape_array_for_tensor_product_space", "modepy/tools.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C28", "Symbolic and numeric evaluation agree",
     "The symbolic form of a basis function evaluates to the numeric value everywhere.",
     ["modepy/modes.py", "modepy/tools.py"], ("symbolicize_function",
                                              "modepy/modes.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C29", "Modal decay estimates recover the decay of the data",
     "The fitted exponent of data with a known modal decay is that decay.",
     ["modepy/modal_decay.py"], ("least-squares fit", "modepy/modal_decay.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
    ("C30", "Transplanted maps are monotone bijections with the right derivative",
     "Each map takes the interval onto itself monotonically and its derivative is the "
     "derivative of the map.",
     [Q + "transplanted.py"], ("map functions", Q + "transplanted.py"),
     "a pure function of its input: no schedule, clock, fault or history takes part"),
]


def main():
    have = {re.match(r"c(\d+)_", f).group(1)
            for f in os.listdir(os.path.join(V, "sim", "props"))
            if re.match(r"c(\d+)_", f)}
    lines, checks, na = [], [], []
    for p in P:
        if p["id"][1:] not in have:
            continue
        a = {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        lines.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                      "quantifier": {"over": p["over"], "text": p["text"]},
                      "why_tests_cant": p["why"], "anchors": a})
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 -m sim.check {p['id']} --tier quick",
            "thorough_cmd": f"python3 -m sim.check {p['id']} --tier thorough",
            "technique": TECH + p["how"], "level": "exploration",
            "level_note": p["note"]})
    for id, title, st, files, m, reason in NA:
        lines.append({"id": id, "title": title, "statement": st,
                      "quantifier": {"over": ["inputs"], "text": "all inputs"},
                      "why_tests_cant": "Tests sample small orders and dimensions.",
                      "anchors": {"files": files, "mechanism": mech(m),
                                  "hook_needed": None}})
        na.append({"property": id, "reason": reason})
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in lines:
            f.write(json.dumps(x) + "\n")
    man = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: every seam used (numpy's data-memory allocator "
                    "and bit-generator C APIs, user callbacks, the import system, "
                    "sys.settrace, numpy.linalg/scipy entry points) exists already."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
