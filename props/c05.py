"""C05: the log-barrier solver returns a feasible, near-optimal point and reports it
truthfully; an infeasible start is refused untouched."""
import numpy as np
from hypothesis import strategies as st

from props.l1common import dual_gap, make, opts, schedule_gap, signal, sloppy
from props.opcheck import build_case
from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, Violation, require

LEVEL = "exploration"
RULE = ("case = (measurement operator: random dense matrix, 1-D or 2-D DCT; noisy "
        "measurements of a sparse signal; constraint radius; feasible or infeasible "
        "start; solver options incl. the three warm-start modes); non-trivial when the "
        "barrier loop ran and moved the start point (or, for infeasible starts, when the "
        "start was rejected)")
ASSUMPTIONS = [
    "problems are well scaled (mean absolute coefficient between about 1e-2 and 2, "
    "radius between 1e-3 and 0.8 of ||b||), n <= m, full row rank",
    "optimality is asked only of runs with tight Newton / CG tolerances; feasibility and "
    "reporting of every run",
    "the optimum is bounded below by a dual feasible point (weak duality), so a reported "
    "gap is a true gap up to rounding"]


@st.composite
def operator(draw, mx=60, side=12):
    if draw(st.booleans()):
        m = draw(st.integers(2, mx))
        n = draw(st.integers(1, m))
        return dict(kind=lib.MAT, n=n, m=m, A=dict(k="normal", s=draw(
            st.integers(0, 10 ** 6)), e=0), norm=True)
    r, c = draw(gen.image(side, mx, 1))
    return dict(kind=lib.DCT, mrow=r, mcol=c, dct_mode=draw(st.sampled_from([1, 2])),
                idx=draw(gen.idx()))


def cond_ok(R):
    if R.kind != lib.MAT:
        return True
    s = np.linalg.svd(R.A, compute_uv=False)
    return s[-1] > 1e-2 * s[0]


def run(L, R, b, eps, x0, o):
    X, B, res = Buf(x0, name="x"), Buf(b, name="b"), Buf(4)
    O = lib.l1qc_opts(epsilon=eps, **o)
    rc = L.sh_l1qc(0, R.m, X.p, R.n, B.p, O.p, res.p, 10 ** 15)
    X.guards()
    B.unchanged("b")
    return X, np.append(res.a, L.sh_n_atax())


def common(R, b, eps, x, res, o, l1_start):
    require(np.all(np.isfinite(x)), "the result is not finite")
    res_n = np.linalg.norm(R.ref("Ax", x) - b)
    require(res_n <= eps * (1 + 1e-9), "result violates the constraint: ||Ax-b|| = %r > "
            "epsilon = %r", res_n, eps)
    l1 = np.abs(x).sum()
    require(res[3] == 0, "status %d for a feasible start", res[3])
    require(abs(res[0] - l1) <= 1e-12 * l1 + 1e-300, "reported l1 norm %r, actual %r",
            res[0], l1)
    lbi = o["lbiter"]
    if not lbi:
        tau0 = max((2 * R.m + 1) / l1_start, 1.0)
        v = (np.log(2 * R.m + 1) - np.log(o["lbtol"]) - np.log(tau0)) / np.log(o["mu"])
        lbi = max(0, int(np.ceil(v - 1e-9)) + 1)
    require(0 <= res[1] <= lbi * max(1, o["newton_max_iter"]),
            "reported %d Newton iterations; at most %d x %d are allowed", res[1], lbi,
            o["newton_max_iter"])
    require(0 <= res[2] <= max(res[1], 0) * o["cg_maxiter"],
            "reported %d CG iterations in %d Newton iterations of at most %d", res[2],
            res[1], o["cg_maxiter"])
    # a CG iteration takes one normal product, and so does a CG start
    require(res[2] <= res[4], "reported %d CG iterations, but the normal operator was "
            "used only %d times", res[2], res[4])
    require(res[4] <= res[2] + res[1] + lbi, "the normal operator was used %d times, for "
            "reported %d CG iterations in %d Newton iterations", res[4], res[2], res[1])


def with_op(L, c, f):
    R, keep = build_case(L, 0, c["op"])
    if c["op"].get("norm"):
        # unit-scale rows: rescale in place (the library borrows the matrix)
        keep.a[:] /= np.sqrt(R.n)
        keep.mark()
        R.A = keep.a.reshape(R.n, R.m)
    L.sh_log_replace(2)
    try:
        if not cond_ok(R):
            return False
        return f(R)
    finally:
        L.sh_log_replace(0)
        L.sh_destroy(0)


def check_opt(c, L):
    def f(R):
        b, eps, x0 = make(R, c["sig"])
        o = c["o"]
        l1s = float(np.abs(x0).sum())
        if l1s == 0:
            return False
        if o["lbiter"]:
            # the Newton tolerance has to suit the accuracy the schedule asks for
            g = schedule_gap(R.m, l1s, o["mu"], o["lbtol"], o["lbiter"])
            if g < 1e-5:
                return False
            o = dict(o, newton_tol=1e-4 * min(g, 1.0))
        X, res = run(L, R, b, eps, x0, o)
        common(R, b, eps, X.a, res, o, l1s)
        gap, p = dual_gap(R, b, eps, X.a)
        # below 1 the barrier parameter is clipped: only well-scaled starts are claimed
        if l1s > 2 * R.m + 1:
            return False
        lim = schedule_gap(R.m, l1s, o["mu"], o["lbtol"], o["lbiter"])
        lim = min(lim, max(l1s, 0)) if not o["lbiter"] else lim
        lim = lim * c.get("slack", 1) * (1 + 1e-6) + 1e-9 * (p + eps)
        require(gap <= lim, "l1 norm %r is %r above the certified lower bound; mu*lbtol "
                "allows %r", p, gap, lim)
        moved = not np.array_equal(X.a, x0)
        return dict(nt=moved, labels=["mat" if R.kind == lib.MAT else "dct",
                                      "warm%d" % o["warm_start_cg"],
                                      "n==m" if R.n == R.m else "n<m"])
    return with_op(L, c, f)


def check_zero(c, L):
    """x = 0 is a feasible start when the radius reaches ||b||, and it is the optimum"""
    def f(R):
        b, eps, x0 = make(R, dict(c["sig"], er=c["er"]))
        x0 = np.zeros(R.m)
        X, res = run(L, R, b, eps, x0, c["o"])
        require(np.all(np.isfinite(X.a)), "the result is not finite")
        require(res[3] == 0, "status %d for the feasible start 0", res[3])
        r = np.linalg.norm(R.ref("Ax", X.a) - b)
        require(r <= eps * (1 + 1e-9), "result violates the constraint: %r > %r", r, eps)
        l1 = np.abs(X.a).sum()
        require(abs(res[0] - l1) <= 1e-12 * l1, "reported l1 norm %r, actual %r", res[0], l1)
        require(l1 == 0, "left the optimal start 0 for a point of l1 norm %r", l1)
        return True
    return with_op(L, c, f)


def check_sloppy(c, L):
    def f(R):
        b, eps, x0 = make(R, c["sig"])
        l1s = float(np.abs(x0).sum())
        if l1s == 0:
            return False
        X, res = run(L, R, b, eps, x0, c["o"])
        common(R, b, eps, X.a, res, c["o"], l1s)
        return not np.array_equal(X.a, x0)
    return with_op(L, c, f)


def check_infeasible(c, L):
    def f(R):
        b, eps, x0 = make(R, c["sig"])
        r = np.random.default_rng(c["sig"]["s"] + 1)
        p = r.standard_normal(R.m)
        ap = np.linalg.norm(R.ref("Ax", p))
        if ap == 0:
            return False
        if c["far"] < 1e-2:
            # just outside: from the least-squares point, whose misfit is zero
            ls = (np.linalg.lstsq(R.A, b, rcond=None)[0] if R.kind == lib.MAT
                  else R.ref("Aty", b))
            x = ls + p * (eps * (1 + c["far"]) / ap)
        else:
            x = x0 + p * (eps * (2 + c["far"]) / ap)
        if np.linalg.norm(R.ref("Ax", x) - b) <= eps * (1 + 1e-9):
            return False
        X, res = run(L, R, b, eps, x, c["o"])
        require(res[3] == lib.INFEASIBLE_START, "infeasible start gave status %d", res[3])
        X.unchanged("the infeasible start point")
        require(abs(res[0] - np.abs(x).sum()) <= 1e-12 * np.abs(x).sum(),
                "reported l1 norm %r of the refused start, actual %r", res[0],
                np.abs(x).sum())
        return True
    return with_op(L, c, f)


def cases(o, mx=60, side=12, **kw):
    return st.fixed_dictionaries(dict(op=operator(mx, side), sig=signal, o=o, **kw))


@st.composite
def calm(draw):
    """options under which problems of a few hundred unknowns stay well conditioned"""
    o = draw(opts())
    o["mu"] = draw(st.sampled_from([2., 5., 10.]))
    o["lbtol"] = 10.0 ** draw(st.floats(-3, -1))
    o["newton_tol"] = o["lbtol"] * 1e-4
    o["lbiter"] = 0
    return o


TESTS = [
    Test("optimal", cases(opts()), check_opt, variant="wrap", quick=40000,
         thorough=10 ** 6, shards=4, cap=35, cap_thorough=800, chunk=50),
    Test("large", st.fixed_dictionaries(dict(
         op=operator(300, 20), o=calm(), slack=st.just(3.), sig=signal.map(
             lambda d: dict(d, er=max(d["er"], -2.))))), check_opt, variant="wrap",
         quick=2000, thorough=10 ** 5, shards=1, cap=35, cap_thorough=600, chunk=20),
    Test("large-sloppy", cases(sloppy(), 400, 25), check_sloppy, variant="wrap", quick=3000,
         thorough=10 ** 5, shards=1, cap=35, cap_thorough=400, chunk=20),
    Test("zero", cases(sloppy(), er=st.floats(.001, 1)), check_zero, variant="wrap",
         quick=2000, thorough=4 * 10 ** 4, shards=1, cap=15, cap_thorough=100, chunk=50),
    Test("sloppy", cases(sloppy()), check_sloppy, variant="wrap", quick=20000,
         thorough=4 * 10 ** 5, shards=2, cap=35, cap_thorough=400, chunk=50),
    Test("infeasible", cases(opts(), far=st.sampled_from([1e-7, 1e-5, 1e-3, .1, 10., 1e4])),
         check_infeasible, variant="wrap", quick=5000, thorough=10 ** 5, shards=1, cap=35),
]
