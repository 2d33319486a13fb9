#!/usr/local/bin/python3-vt
"""Writes properties.jsonl and MANIFEST.json (kept in one place so they stay in step)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note,
         state=(), level="exploration"):
    P.append(dict(
        p=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
               anchors=dict(files=list(files),
                            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                            mechanism=[dict(name=a, where=b) for a, b in mech],
                            observe_at=list(observe), hook_needed=None)),
        technique=technique, note=note, level=level))


prop("C01", "Sub-sampled DCT operators equal their definition",
     "For every signal or image size (including a single row or column), 1-D or 2-D mode, "
     "and index set in any order, a DCT operator set computes the orthonormal inverse DCT, "
     "its transpose, the row selection, their products and the normal product exactly (to "
     "rounding), reports matching dimensions, and behaves as an isometry where it should. "
     "The operators leave their input vectors and the index array as they were and write "
     "nothing outside their output.",
     ["inputs", "configurations"],
     "all shapes, both DCT modes, all duplicate-free index sets, all finite vectors",
     "the tests compare a few stored shapes and vectors (and most need SciPy-generated data "
     "that is not there); single rows/columns, odd shapes, unsorted samples and input "
     "preservation are never tried",
     ["src/dct1.c", "src/dct2.c", "src/dct_transforms.c", "include/l1c_transforms.h"],
     [("plan execution and scaling", "src/dct1.c dct_EMx/dct_MtEty/dct_MtEt_EMx/dct_Mx/dct_Mty"),
      ("plan execution and scaling", "src/dct2.c dct2_*")],
     ["operator function pointers returned by set-up"],
     "property-based testing (hypothesis) against a reference DCT, metamorphic isometry",
     "generated shapes up to about 40x40 (a share up to 160 with the real planner), checked "
     "against scipy's DCT at 1e-12; guard zones around every buffer",
     [("plans and scratch vectors", "one live instance per DCT kind", "file-scope statics in src/dct1.c, src/dct2.c")])

prop("C02", "Matrix and DCT+TV operators, adjoints and the W-norm bound",
     "For every dense matrix and for the combined DCT and total-variation dictionary with "
     "any non-negative weights, the forward, adjoint and normal operators equal their "
     "definitions, each adjoint is the transpose of its forward operator, and the normal "
     "operator equals the adjoint applied to the forward result. The reported norm of the "
     "analysis dictionary is an upper bound on its true norm and not needlessly large.",
     ["inputs", "configurations"],
     "all matrices, image shapes, weight pairs, analysis and synthesis form, all vectors",
     "the tests use one shape and one pair of weights from stored data, and check no "
     "adjointness and no norm bound",
     ["src/matrix_transforms.c", "src/dct_tv_transforms.c", "src/TV.c"],
     [("W = [M, av*Dv, ah*Dh] and adjoint", "src/dct_tv_transforms.c"),
      ("dense gemv", "src/matrix_transforms.c")],
     ["operator function pointers and dimensions returned by set-up"],
     "property-based testing: definition oracle, inner-product (adjoint) and norm relations",
     "dimensions up to about 40x40; exact relations at 1e-12 relative to the operator norm")

prop("C03", "Results depend on arguments only, not on earlier calls",
     "Whatever sequence of set-ups, uses, rejected set-ups, destructions and solver runs "
     "came before, an operator or solver call gives the same result as in a fresh process. "
     "Destroying an operator set releases all of its memory and transform plans exactly "
     "once, and a rejected set-up never disturbs the set that is live.",
     ["histories", "inputs"],
     "all call histories with at most one live set of the DCT family",
     "each test sets up once, uses and destroys; no test interleaves families, repeats "
     "set-ups of changing shape, or rejects one while another is live",
     ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c",
      "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c"],
     [("set-up re-initialises the static state; destroy releases it",
       "l1c_dct1_setup, l1c_dct2_setup, l1c_setup_dctTV_transforms")],
     ["operator outputs, solver outputs, allocator and plan accounting"],
     "stateful model-based testing of call histories with allocation accounting",
     "histories of up to 14 steps; every result is compared with the reference model or the "
     "bit pattern of a first run",
     [("static operator state", "plans, scratch, dimensions of the live set", "src/dct*.c")])

prop("C04", "Invalid arguments are rejected without side effects",
     "Set-up, reconstruction and solver calls accept exactly the documented argument domain "
     "(positive sizes, indices inside the image, non-negative weights, images of at least "
     "3x3 when a TV weight is positive; for NESTA, dimensions that match the operator set "
     "and all needed operators present); everything else gives a non-zero status, the "
     "invalid-argument or inconsistent-argument one where documented. A rejected call "
     "changes no output array, no operator structure and no input, and leaks nothing.",
     ["inputs"],
     "all argument tuples around and beyond the documented domain",
     "the tests try a handful of invalid tuples and do not look at outputs or leaks",
     ["src/dct_transforms.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c",
      "src/l1qc_dct.c", "src/nesta.c"],
     [("argument checks", "check_pixel_idx and the size checks of the set-up functions"),
      ("dimension and NULL-operator check", "src/nesta.c l1c_nesta_setup")],
     ["status codes, output arrays, allocator accounting"],
     "boundary-value generation against a domain oracle",
     "exhaustive-like random boundary tuples (tens of thousands per run) against an "
     "independent statement of the domain")

prop("C05", "l1qc: feasible, near-optimal, truthfully reported",
     "From every feasible start the log-barrier solver returns status zero and a finite "
     "point whose measurement misfit is within the requested radius, whose l1 norm is the "
     "one it reports, with iteration counts that are those made and within the limits; with tight inner "
     "tolerances its l1 norm is within the tolerance set by the barrier schedule of the "
     "true minimum. An infeasible start is refused with the documented status and left "
     "untouched, and the measurements are never modified.",
     ["inputs", "configurations"],
     "all full-row-rank operators, measurements, radii, starts and solver options",
     "the tests run one stored problem and compare intermediate quantities; feasibility and "
     "optimality over other operators, radii, warm-start modes and option values are not "
     "covered",
     ["src/l1qc_newton.c", "src/linesearch.c", "src/cgsolve.c"],
     [("barrier loop, step-size cap, line search", "src/l1qc_newton.c l1c_l1qc_newton"),
      ("start feasibility check", "src/l1qc_newton.c _l1c_l1qc_check_feasible_start")],
     ["result vector, result struct, status"],
     "property-based testing with a duality-gap certificate as oracle",
     "up to 60 unknowns (a share up to 400); optimality is certified by weak duality, so no false alarm can "
     "come from the reference; slack calibrated on the shipped code")

prop("C06", "Image reconstruction honours the samples with minimal DCT l1 norm",
     "For every image shape, transform choice, set of distinct sampled pixels, sample "
     "values (including all zero) and radius, the image reconstruction call succeeds and "
     "returns an image matching the samples within the radius, whose DCT coefficients have "
     "the reported l1 norm, which with tight tolerances is within the schedule's tolerance "
     "of the minimum. When the all-zero image is feasible the result is (near) zero, and "
     "samples and indices are left unmodified wherever they lie in memory.",
     ["inputs", "configurations"],
     "all shapes, both DCT modes, all distinct index sets, samples, radii and options",
     "only invalid arguments are tested; no test runs a reconstruction through this call",
     ["src/l1qc_dct.c", "src/l1qc_newton.c", "src/dct1.c", "src/dct2.c"],
     [("start from A'b, solve, transform back", "src/l1qc_dct.c l1qc_dct")],
     ["returned image, result struct, status"],
     "property-based testing with a duality-gap certificate as oracle",
     "images up to about 12x12; certified lower bound as for C05")

prop("C07", "NESTA: feasible and near-optimal for the smoothed objective",
     "For every image shape, sampling, non-negative TV weights in analysis form (or plain "
     "DCT in synthesis form), samples, radius, smoothing and number of continuation steps "
     "the first-order solver succeeds and returns a finite point inside the data "
     "constraint, leaving the samples unmodified. With a tight tolerance its smoothed "
     "objective is (nearly) the minimum over the constraint set, and its l1 objective is "
     "within the smoothing error of the true minimum.",
     ["inputs", "configurations"],
     "all problems and options in the domain",
     "the tests check single internal steps on stored data, and none needs the final "
     "point to be feasible or optimal",
     ["src/nesta.c", "src/dct_tv_transforms.c"],
     [("projection steps and continuation", "src/nesta.c l1c_nesta"),
      ("Lipschitz constant from the W norm", "src/nesta.c")],
     ["result vector, status"],
     "property-based testing with a dual (certified) lower bound as oracle",
     "images up to about 10x10; slack 5 % / 0.5 % on the smoothed optimum, ten times what "
     "the shipped code needs")

prop("C08", "TV denoising returns the functional's minimiser and stops as told",
     "For every image of at least 3x3, fidelity weight and tolerance, TV denoising returns "
     "status zero and an image which, for a tight tolerance, minimises the sum of absolute "
     "differences plus the weighted squared distance to the input, keeps the mean, and "
     "transforms as the problem does under negation, scaling, offset and transposition. It "
     "stops at the first iteration whose change is below the tolerance or at the iteration "
     "limit, zero iterations return the image itself, and the input image is not modified.",
     ["inputs", "configurations"],
     "all images, weights, tolerances, iteration limits and inner sweep counts",
     "the tests check single sub-steps on stored data and one denoising run without an "
     "optimality criterion",
     ["src/bregman.c", "src/TV.c"],
     [("split-Bregman iteration", "src/bregman.c l1c_breg_anistropic_TV")],
     ["returned image, status"],
     "property-based testing: certified duality gap, metamorphic symmetries, step-by-step "
     "stopping oracle",
     "images up to about 14x14 for optimality, larger for symmetries")

prop("C09", "Conjugate gradients improve, report truthfully and stop as told",
     "For every symmetric positive definite system, right-hand side, start and positive "
     "diagonal preconditioner, both conjugate-gradient solvers return a finite point no "
     "worse than the start, report the relative residual it really has, use at most the "
     "allowed iterations and stop early only when the tolerance is met; the residual obeys "
     "the classical convergence bound and equals that of textbook conjugate gradients. The "
     "right-hand side is not modified.",
     ["inputs", "configurations"],
     "all SPD systems up to condition 1e6, starts, preconditioners, tolerances and limits",
     "the tests solve two stored systems to convergence from one start",
     ["src/cgsolve.c"],
     [("best-iterate tracking and stopping", "src/cgsolve.c l1c_cgsolve, l1c_cgsolve_diag_precond")],
     ["result vector, results struct, operator call count"],
     "property-based testing against textbook CG and the Chebyshev bound",
     "systems up to about 40 unknowns")

prop("C10", "Line searches accept the first sufficient step, or nothing",
     "For every objective, point and direction, the backtracking line searches evaluate "
     "the objective along the geometric step sequence, accept the first step with "
     "sufficient decrease (never a NaN value), and return that very trial point, its value, "
     "step and iteration count. If no step within the limit of 32 trials is accepted they "
     "report failure and leave point and value unchanged.",
     ["inputs"],
     "all objective value sequences including NaN and infinities, all step parameters",
     "the tests run one smooth objective that accepts early",
     ["src/linesearch.c"],
     [("backtracking loops", "src/linesearch.c l1c_linesearch, l1c_linesearch_xu")],
     ["trial points seen by the objective, outputs, status"],
     "property-based testing with a scripted objective and a step-sequence oracle",
     "every generated script of up to 40 trial values")

prop("C11", "Image difference operators equal their definition on every shape",
     "For every image shape, image and weight the horizontal and vertical difference "
     "operators, their transposes and the second-difference operators equal their matrix "
     "definition (zero at the boundary, weight applied once, squared for the second "
     "difference), overwrite the whole output whatever it held and nothing beyond it.",
     ["inputs"],
     "all shapes from one row or column up, all images, all weights, any array alignment",
     "the tests use three stored shapes with one weight",
     ["src/TV.c"],
     [("difference loops", "src/TV.c l1c_Dx, l1c_DxT, l1c_DxTDx, l1c_Dy, l1c_DyT, l1c_DyTDy")],
     ["operator outputs"],
     "property-based testing against an explicit matrix definition",
     "shapes up to 40x40 and a share of larger and thin ones; exact to 1e-14 relative")

prop("C12", "Vector kernels compute their formula for every length",
     "Each vector kernel (scaled sums, element products, fills, sums, 1-norms, log sums, "
     "norms and their differences, maxima, absolute values) gives its mathematical result to within "
     "rounding for every length, including zero and lengths that are no multiple of the "
     "SIMD width, touches nothing beyond the vectors and does not modify its inputs. Log "
     "sums of negative arguments are NaN and of zero arguments minus infinity.",
     ["inputs"],
     "all lengths, values and scalars",
     "the tests use one fixed length or two per kernel",
     ["src/l1c_math.c", "src/vcl/vcl_math.cpp", "include/l1c_math.h"],
     [("blocked loops with remainder handling", "src/l1c_math.c, src/vcl")],
     ["kernel outputs"],
     "property-based testing against exact (fsum / extended precision) formulas",
     "lengths up to several thousand; error bounds proportional to length")

prop("C13", "Allocators give aligned, disjoint, full-size, zeroed memory",
     "Every block or row returned by the vector allocators is 64-byte aligned, fully "
     "writable, overlaps no other live block, keeps its contents until freed and, for the "
     "zeroing variants, starts as all zeros. Negative sizes give NULL, freeing NULL is "
     "harmless, and freeing releases every byte exactly once.",
     ["histories", "inputs"],
     "all sequences of allocations, writes and frees",
     "the tests allocate one block of each kind",
     ["src/l1c_memory.c"],
     [("aligned allocation and row tables", "src/l1c_memory.c")],
     ["pointers, contents, allocator accounting"],
     "stateful model-based testing of allocation histories",
     "histories of up to 30 operations, fresh memory poisoned by the harness")

prop("C14", "Running out of memory is reported cleanly everywhere",
     "Whichever memory allocation or transform plan creation fails during any set-up, "
     "solver, reconstruction, denoising or file-loading call, the call reports an error, "
     "leaves its output array untouched, releases everything it had acquired exactly once, and the "
     "library stays usable.",
     ["fault_sequences", "inputs"],
     "every single failing allocation and every failing suffix of allocations, of every "
     "entry point, after earlier use of the library",
     "no test injects a failure",
     ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/nesta.c",
      "src/bregman.c", "src/l1qc_newton.c", "src/l1qc_dct.c", "src/json_utils.c",
      "src/l1c_memory.c"],
     [("fail/exit labels of each function", "all files of src/")],
     ["status, outputs, allocator and plan accounting"],
     "fault enumeration driven by generated arguments",
     "every allocation the library itself makes is failed in turn for each generated call; "
     "allocations inside FFTW, BLAS and cJSON are not", level="fault_enumeration")

exec(open(os.path.join(V, "tools", "more_meta.py")).read()) if os.path.exists(
    os.path.join(V, "tools", "more_meta.py")) else None

NA = []
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for e in P:
        assert len(e["p"]["title"]) <= 80, e["p"]["title"]
        fh.write(json.dumps(e["p"]) + "\n")
man = dict(
    version=1, setup_cmd="./setup.sh",
    checks=[dict(property=e["p"]["id"], quick_cmd="./run.py %s" % e["p"]["id"],
                 thorough_cmd="VERIF_TIER=thorough ./run.py %s" % e["p"]["id"],
                 evidence_file="evidence/%s.json" % e["p"]["id"],
                 technique=e["technique"], level=e["level"], level_note=e["note"])
            for e in P],
    not_applicable=NA,
    notes="No hooks in /repo: the checks drive the public interface, and faults are "
          "injected by linking the library with --wrap. Only fix: commits were made.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
