prop("C15", "No stray memory access and no use of uninitialised memory",
     "No operator, solver, kernel, allocator or loader call with valid arguments reads or "
     "writes outside the arrays of documented size it is given and the memory it holds "
     "itself, uses memory after freeing it, or has undefined integer or pointer "
     "behaviour; and no result depends on memory that was never initialised.",
     ["inputs", "histories"],
     "every call with valid arguments, on arrays of exactly the documented size",
     "the tests run without sanitizers, on generously sized arrays of a few shapes; fresh "
     "memory is usually zero there",
     ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/TV.c", "src/bregman.c",
      "src/nesta.c", "src/l1qc_newton.c", "src/cgsolve.c", "src/linesearch.c",
      "src/l1c_math.c", "src/vcl/vcl_math.cpp", "src/json_utils.c"],
     [("loops and work-array partitioning", "all files of src/")],
     ["sanitizer reports; bit comparison of two runs with different fresh memory"],
     "property-based testing under AddressSanitizer/UBSan, and metamorphic comparison "
     "under different memory fills",
     "cases of the other properties' generators; of BLAS and FFTW the operands are checked, inside cJSON nothing "
     "is instrumented")

prop("C16", "Results do not depend on thread count or concurrent calls",
     "With any number of OpenMP threads every operator, solver and kernel gives the result "
     "its definition asks for, and calls that keep no operator set (denoising, differences, "
     "conjugate gradients, vector kernels, allocation) made at the same time from "
     "several threads give the same results as when made alone.",
     ["schedules", "inputs"],
     "all inputs, thread counts and interleavings of independent calls",
     "the tests run single calls on one thread setting",
     ["src/TV.c", "src/bregman.c", "src/cgsolve.c", "src/l1c_math.c", "src/l1c_memory.c",
      "src/nesta.c", "src/dct1.c", "src/dct2.c"],
     [("OpenMP loops", "src/TV.c, src/bregman.c, src/l1c_math.c"),
      ("absence of shared static buffers", "src/bregman.c, src/cgsolve.c, src/l1c_memory.c")],
     ["results under 3, 4 and 8 threads; results of overlapping calls"],
     "property-based testing under several thread counts, and generated sets of overlapping "
     "calls compared with their sequential results",
     "schedules are those the operating system produces (each case repeated), not enumerated")

prop("C17", "Reporting goes through the replaceable printer and changes nothing",
     "All progress output of the library goes through the replaceable print function and "
     "never directly to standard output; replacing it returns the previous one and takes "
     "effect at once. At verbosity zero the iterative solvers print nothing, at level v the "
     "conjugate-gradient and NESTA solvers report the iterations divisible by v, "
     "the log-barrier solver every barrier step and from level 2 on every Newton step, and the "
     "verbosity never changes a result.",
     ["inputs", "configurations", "histories"],
     "all solver calls, verbosity levels and sequences of replacements",
     "one test replaces the printer once and prints one line",
     ["src/l1c_logging.c", "src/cgsolve.c", "src/l1qc_newton.c", "src/l1qc_dct.c",
      "src/nesta.c", "src/bregman.c", "src/linesearch.c", "include/l1c_logging.h"],
     [("l1c_printf pointer", "src/l1c_logging.c"),
      ("verbosity tests", "src/cgsolve.c, src/nesta.c, src/l1qc_newton.c")],
     ["captured printer calls, captured standard output, solver results"],
     "property-based testing: recorder in place of the printer, metamorphic relation over "
     "verbosity levels",
     "standard error is not covered; the log-barrier solver may warn at level zero")

prop("C18", "The Python functions agree with the C library",
     "For every data set, argument layout (number type, byte order, strides, lists, "
     "read-only arrays) and selection of options, the Python functions return what the C "
     "functions return for the same numbers, as a fresh mrow-by-mcol float array in the "
     "image domain, with the documented defaults. They raise the documented exceptions for "
     "bad arguments, leave their arguments alone, and release all memory, "
     "transform plans and references, also when an allocation fails.",
     ["inputs", "configurations", "fault_sequences"],
     "all data, layouts, option subsets, single invalid arguments, failing allocations",
     "the tests call each function on one image in one layout and look at the result's shape",
     ["interfaces/python/l1cPy.c"],
     [("argument conversion, copying, clean-up", "interfaces/python/l1cPy.c")],
     ["return values, exceptions, reference counts, allocator and plan accounting"],
     "property-based differential testing of the Python module against the C calls, with "
     "fault enumeration",
     "images up to 80 pixels; differences above 1e-6 of the image size are reported")

prop("C19", "The Octave functions agree with the C library",
     "For every image or sample set, vector orientation and selection of options, the Octave "
     "functions return what the C functions return for the same numbers (square or not), "
     "convert 1-based to 0-based indices, honour every option with the defaults of the "
     "option functions, refuse invalid arguments with an l1c error, leave their arguments "
     "alone and release all memory, also when an allocation fails.",
     ["inputs", "configurations", "fault_sequences"],
     "all data, orientations, option subsets, single invalid arguments, failing allocations",
     "the tests call each function once on one square image",
     ["interfaces/mex/l1qc_dct_mex.c", "interfaces/mex/nesta_dctTV_mex.c",
      "interfaces/mex/breg_anistropic_TV_mex.c", "interfaces/mex/l1c_mex_utils.c",
      "interfaces/mex/l1qc_dct_opts.m", "interfaces/mex/nesta_opts.m"],
     [("argument checks, index shift, memory order", "interfaces/mex/*.c"),
      ("option defaults", "interfaces/mex/*_opts.m")],
     ["results, error identifiers, allocator and plan accounting inside Octave"],
     "property-based differential testing inside a persistent Octave process against the C "
     "calls, with fault enumeration",
     "images up to 80 pixels; differences above 1e-6 of the image size are reported")

prop("C20", "The JSON loader returns what the file says",
     "For every JSON object file, each integer, number and array asked for by name comes "
     "back exactly, arrays with their length and in aligned memory; asking for a missing "
     "name or another type is an error; and a missing, empty, unreadable or malformed file is "
     "reported as an error. No call leaks memory or touches memory it should not.",
     ["inputs"],
     "all documents, layouts, truncations and queries",
     "the tests only ever load the well-formed data files they generate themselves",
     ["src/json_utils.c", "include/json_utils.h"],
     [("load and extract functions", "src/json_utils.c")],
     ["return values, statuses, allocator accounting, sanitizer reports"],
     "property-based round-trip testing against Python's json module, plus broken files",
     "documents up to a few kilobytes; integers within the range of a C int")

prop("C21", "l1qc walks exact Newton steps along the barrier schedule",
     "With conjugate gradients run to convergence, a log-barrier run of any length returns the "
     "iterate of the documented method: u starts at 0.95|x|+0.1 max|x| and tau at "
     "max((2m+1)/||x||_1, 1), tau grows by mu per barrier step for the given or the "
     "tolerance-derived number of steps, and each Newton step solves the Hessian system of the "
     "barrier functional, starts its line search at 0.99 of the largest feasible step (at most "
     "0.99), and ends the stage when half the squared Newton decrement is below newton_tol, the "
     "relative l1 change is below l1_tol, or the Newton limit is reached. Functional, gradient, "
     "direction, largest step, feasibility test and start values each equal their formula, "
     "whatever the warm start. With few or loose conjugate-gradient iterations the direction is "
     "the one they give from the documented warm start (zero, the last direction, or the last "
     "step).",
     ["inputs", "histories"],
     "every operator, data, radius, start and option set; every early-stopped run",
     "the tests compare single sub-steps with stored data of one problem",
     ["src/l1qc_newton.c", "src/linesearch.c", "src/cgsolve.c"],
     [("_l1c_l1qc_f_eval, hess_grad, H11pfun, descent_dir, find_max_step, newton_init",
       "src/l1qc_newton.c"), ("barrier and Newton loops", "src/l1qc_newton.c")],
     ["final iterate and Newton count of short and long runs; the sub-steps' outputs"],
     "property-based differential testing against an independent dense Newton reference",
     "up to 120 unknowns; runs with near-ties or condition numbers over 1e9 are skipped")

prop("C22", "NESTA walks Nesterov's iteration through the continuation schedule",
     "A NESTA run returns the iterate of the documented method: starting from A'b, smoothing "
     "and tolerance shrink geometrically over the continuation steps from max(0.9 "
     "max|W'A'b|, mu) and 0.1 to the requested values, each inner step evaluates the "
     "Huber-smoothed norm and its gradient, projects the two prox centres exactly onto the "
     "constraint ball with L = norm_W^2/mu_j, averages them with tau_k = 2/(k+3) and weights "
     "gradients by (k+1)/2, and a stage ends when the objective differs from the mean of the "
     "last ten by less than the stage's tolerance (or at the iteration limit). Schedule, "
     "functional, gradient, projection and running mean each equal their formula.",
     ["inputs", "histories"],
     "every image shape, sampling, TV weights, samples and option set; every early-stopped run",
     "the tests need SciPy-built data and sample one problem per sub-step",
     ["src/nesta.c"],
     [("l1c_nesta_setup, l1c_nesta_feval, l1c_nesta_project, mean buffer", "src/nesta.c"),
      ("continuation and inner loops", "src/nesta.c")],
     ["final iterate of runs of 1 to 400 steps; the sub-steps' outputs"],
     "property-based differential testing against an independent reference implementation",
     "images up to 1500 pixels, at most 400 steps; near-ties of the stopping test skipped")

prop("C23", "TV denoising walks the split-Bregman iteration",
     "Stopped after any number of iterations and with any number of sweeps per iteration, TV "
     "denoising returns the split-Bregman iterate: splitting weight 2 mu, right-hand side from "
     "the current auxiliary variables, lexicographic Gauss-Seidel sweeps with the correct "
     "corner, edge and interior neighbours, soft threshold 1/(2 mu), Bregman updates. The "
     "soft threshold, the sweep, the Jacobi sweep, the right-hand side and the inverse Hessian "
     "diagonal each equal their formula on every shape of at least 3x3.",
     ["inputs", "histories"],
     "every shape, image, weight, iteration and sweep count",
     "the tests compare sub-steps with stored data of one or two shapes",
     ["src/bregman.c", "src/TV.c"],
     [("breg_shrink1, breg_anis_guass_seidel, breg_anis_jacobi, breg_anis_rhs, hess_inv_diag",
       "src/bregman.c"), ("iteration", "src/bregman.c l1c_breg_anistropic_TV")],
     ["the image returned after k iterations; the sub-steps' outputs"],
     "property-based differential testing against an independent reference implementation",
     "images up to 4000 pixels (blocks up to 9000), at most 14 iterations")
