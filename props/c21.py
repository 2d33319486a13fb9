"""C21: the log-barrier solver makes exact Newton steps on the barrier functional, along the
documented barrier schedule, each limited so as to stay strictly feasible."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from props import c05
from props.l1common import make, signal
from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = (dense random or subsampled-DCT operator, noisy measurements, radius, start, "
        "barrier growth and count, Newton tolerance and limit, l1 tolerance, warm start); "
        "non-trivial when at least one Newton step is made.  Building blocks: (operator, "
        "strictly feasible x and u, barrier parameter), always non-trivial")
ASSUMPTIONS = ["path: conjugate gradients run to 1e-12, so that the direction is the Newton "
               "direction up to the system's conditioning; runs whose systems are worse "
               "conditioned than 1e9 are skipped",
               "runs in which a line-search or stopping decision is closer than 1e-6 are "
               "skipped: rounding may then decide it either way",
               "inexact: cases whose outcome a 1e-13 disturbance of the data changes by more "
               "than 1e-9, or whose CG residual stays above 0.45, are skipped",
               "line search: factor 1/2 from 0.99 of the largest feasible step (at most "
               "0.99), slope fraction 0.01"]


def dense(R):
    if R.kind == lib.MAT:
        return R.A.copy()
    return np.stack([R.ref("Ax", e) for e in np.eye(R.m)], axis=1)


def functional(A, b, eps, tau, x, u):
    r = A @ x - b
    fe = (r @ r - eps * eps) / 2
    f1, f2 = x - u, -x - u
    if fe >= 0 or np.any(f1 >= 0) or np.any(f2 >= 0):
        return np.nan
    return u.sum() - (np.log(-f1).sum() + np.log(-f2).sum() + np.log(-fe)) / tau


def system(A, b, eps, tau, x, u):
    """gradient of the barrier functional and tau times its Hessian"""
    r = A @ x - b
    fe = (r @ r - eps * eps) / 2
    f1, f2 = x - u, -x - u
    a = A.T @ r
    g = np.concatenate([-(1 / f1 - 1 / f2 + a / fe), tau + 1 / f1 + 1 / f2]) / tau
    s11, s12 = 1 / f1 ** 2 + 1 / f2 ** 2, -1 / f1 ** 2 + 1 / f2 ** 2
    H = np.block([[np.diag(s11) - A.T @ A / fe + np.outer(a, a) / fe ** 2, np.diag(s12)],
                  [np.diag(s12), np.diag(s11)]])
    return g, H


def solve(H, rhs):
    d = 1 / np.sqrt(np.diag(H))
    S = H * d[:, None] * d[None]
    y = d * np.linalg.solve(S, d * rhs)
    y = y + d * np.linalg.solve(S, d * (rhs - H @ y))
    return y, np.linalg.cond(S)


def max_step(A, b, eps, x, u, dx, du):
    """0.99 min(1, largest step that keeps every constraint)"""
    s = 1.0
    for f, d in ((x - u, dx - du), (-x - u, -dx - du)):
        k = d > 0
        if np.any(k):
            s = min(s, float(np.min(-f[k] / d[k])))
    r, ad = A @ x - b, A @ dx
    qa, qb, qc = ad @ ad, 2 * (r @ ad), r @ r - eps * eps
    if qa > 0:
        disc = np.sqrt(qb * qb - 4 * qa * qc)
        # the stable form of the positive root
        root = (-qb + disc) / (2 * qa) if qb <= 0 else -2 * qc / (qb + disc)
        s = min(s, root)
    return .99 * s


def cg(M, rhs, x, tol, maxit, dt):
    """best iterate of plain conjugate gradients; (x, its relative residual, all relative
    residuals, margin of the decisions)"""
    M, rhs, x = M.astype(dt), rhs.astype(dt), x.astype(dt)
    nb = rhs @ rhs
    r = rhs - M @ x
    p, dl = r.copy(), r @ r
    best, bx, mg, hist = np.sqrt(dl / nb), x.copy(), np.inf, []
    for it in range(1, maxit + 1):
        q = M @ p
        a = dl / (p @ q)
        x = x + a * p
        r = r - a * q
        do, dl = dl, r @ r
        p = r + dl / do * p
        res = np.sqrt(dl / nb)
        hist.append(max(float(res), tol / 100))
        mg = min(mg, abs(res - best) / best, abs(res - tol) / tol)
        if res < best:
            best, bx = res, x.copy()
        if res < tol:
            break
    return bx.astype(float), float(best), hist, float(mg)


def reduced(H, g, tau):
    """the system for dx once du is eliminated"""
    m = g.size // 2
    s11, s12 = np.diag(H)[m:], np.diag(H[:m, m:])
    M = H[:m, :m] - np.diag(s12 ** 2 / s11)
    ntgx, ntgu = -tau * g[:m], -tau * g[m:]
    return M, ntgx - s12 / s11 * ntgu, lambda dx: (ntgu - s12 * dx) / s11


def barrier(A, b, eps, x, o, inexact=None):
    """(x, Newton count, margin, worst condition number, steps, CG residuals)"""
    m = x.size
    hist, step = [], 0.0
    u = .95 * np.abs(x) + .1 * np.abs(x).max()
    tau = max((2 * m + 1) / np.abs(x).sum(), 1.0)
    lbi = o["lbiter"]
    margin, worst, total, steps = np.inf, 1.0, 0, 0
    if lbi == 0:
        v = (np.log(2 * m + 1) - np.log(o["lbtol"]) - np.log(tau)) / np.log(o["mu"])
        margin = min(margin, abs(v - np.round(v)) + (0 if abs(v) > 1e-3 else 1))
        lbi = int(np.ceil(v))
    for _ in range(lbi):
        f = functional(A, b, eps, tau, x, u)
        l1p = np.inf
        dx = np.zeros(m)
        it = 1
        while it < o["newton_max_iter"]:
            g, H = system(A, b, eps, tau, x, u)
            if inexact:
                M, rhs, rest = reduced(H, g, tau)
                k = np.linalg.cond(M)
                ws = o["warm_start_cg"]
                dx, res, h, mg = cg(M, rhs, dx * (0., 1., step)[ws], o["cg_tol"],
                                    o["cg_maxiter"], inexact)
                if not res < .45:
                    return None
                margin = min(margin, mg * 5e-3)  # so that 1e-5 asks for 2e-3 here
                hist += h
                d = np.concatenate([dx, rest(dx)])
            else:
                d, k = solve(H, -tau * g)
            worst = max(worst, k)
            dx, du = d[:m], d[m:]
            s = max_step(A, b, eps, x, u, dx, du)
            slope = g @ d
            ok = False
            for _ls in range(32):
                fn = functional(A, b, eps, tau, x + s * dx, u + s * du)
                if fn == fn:
                    lin = f + .01 * s * slope
                    margin = min(margin, abs(fn - lin) / (abs(f) + 1e-3))
                    if fn <= lin:
                        ok = True
                        break
                s *= .5
            if not ok:
                return None
            x, u, f, step = x + s * dx, u + s * du, fn, s
            steps += 1
            margin = min(margin, abs(-slope / 2 - o["newton_tol"]) / o["newton_tol"])
            if -slope / 2 < o["newton_tol"]:
                break
            l1 = np.abs(x).sum()
            rate = abs(l1p - l1) / l1
            l1p = l1
            if o["l1_tol"] > 0:
                margin = min(margin, abs(rate - o["l1_tol"]) / o["l1_tol"])
            if rate < o["l1_tol"]:
                break
            it += 1
        total += it
        tau *= o["mu"]
    return x, total, margin, worst, steps, np.array(hist)


@st.composite
def opts(draw):
    return dict(mu=draw(st.sampled_from([2., 3., 5., 10., 30.])),
                lbtol=10.0 ** draw(st.floats(-3, 1)), newton_tol=10.0 ** draw(st.floats(-4, 0)),
                l1_tol=draw(st.sampled_from([0., 0., 1e-1, 1e-2, 1e-3])),
                lbiter=draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4])),
                newton_max_iter=draw(st.sampled_from([0, 1, 2, 2, 3, 4, 6, 20])),
                warm_start_cg=draw(st.sampled_from([0, 1, 2])), cg_tol=1e-12,
                cg_maxiter=4000, verbose=draw(st.sampled_from([0, 0, 0, 2])))


def check(c, L):
    def f(R):
        b, eps, x0 = make(R, c["sig"])
        if not np.any(x0):
            return False
        A = dense(R)
        want = barrier(A, b, eps, x0, c["o"])
        if want is None or want[2] < 1e-6 or want[3] > 1e9:
            return False
        X, res = c05.run(L, R, b, eps, x0, c["o"])
        xw, total, mg, worst, steps, _ = want
        tol = 1e-7 * (np.abs(x0).max() + np.abs(xw).max()) * max(1, worst / 1e5)
        e = np.abs(X.a - xw)
        i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
        require(e[i] <= tol, "element %d is %r after %d Newton steps; exact Newton steps give "
                "%r", i, X.a[i].item(), steps, xw[i].item())
        require(int(res[1]) == total, "%d Newton iterations counted, %d expected", res[1],
                total)
        return dict(nt=steps > 0, labels=["mat" if R.kind == lib.MAT else "dct",
                                          "warm%d" % c["o"]["warm_start_cg"],
                                          "steps%s" % (steps if steps < 6 else "6+")])
    return c05.with_op(L, c, f)


def check_inexact(c, L):
    """few or loose CG iterations: the direction is what CG gives from the warm start"""
    o = dict(c["o"], **c["cg"])
    o["newton_max_iter"] = min(o["newton_max_iter"], 5)
    o["lbiter"] = o["lbiter"] or 2

    def f(R):
        b, eps, x0 = make(R, c["sig"])
        if not np.any(x0):
            return False
        want = barrier(dense(R), b, eps, x0, o, np.longdouble)
        if want is None or want[2] < 1e-5 or want[3] > 1e6:
            return False
        # is the outcome well determined?  the same in double, data disturbed a little
        r = np.random.default_rng(c["sig"]["s"])
        for e in (1e-13, 1e-12, 1e-12):
            # (added, not multiplied: exact zeros and symmetries must not survive it)
            D = dense(R)
            w2 = barrier(D + e * np.abs(D).max() * r.standard_normal(D.shape), b, eps,
                         x0 + e * np.abs(x0).max() * r.standard_normal(R.m), o, np.float64)
            if w2 is None or w2[1] != want[1] or len(w2[5]) != len(want[5]) or np.max(
                    np.abs(w2[0] - want[0])) > 1e4 * e * np.abs(x0).max() or np.any(
                    np.abs(w2[5] - want[5]) > 5e-4 * want[5]):
                return False
        X, res = c05.run(L, R, b, eps, x0, o)
        xw, total, mg, worst, steps, hist = want
        tol = 1e-6 * (np.abs(x0).max() + np.abs(xw).max())
        e = np.abs(X.a - xw)
        i = int(np.argmax(np.where(np.isnan(e), np.inf, e)))
        require(e[i] <= tol, "element %d is %r after %d inexact Newton steps; CG from the "
                "documented warm start gives %r", i, X.a[i].item(), steps, xw[i].item())
        require(int(res[1]) == total, "%d Newton iterations counted, %d expected", res[1],
                total)
        require(int(res[2]) == len(hist), "%d CG iterations counted, %d expected", res[2],
                len(hist))
        return dict(nt=steps > 0, labels=["warm%d" % o["warm_start_cg"],
                                          "steps%s" % (steps if steps < 6 else "6+")])
    return c05.with_op(L, c, f)


def arr(L, p, which, n):
    q = L.sh_lb_arr(p, which)
    return np.ctypeslib.as_array(ctypes.cast(q, ctypes.POINTER(ctypes.c_double)), (n,))


def check_blocks(c, L):
    def f(R):
        b, eps, x0 = [v * 10.0 ** c.get("S", 0) for v in make(R, c["sig"])]
        m, n = R.m, R.n
        A = dense(R)
        r = np.random.default_rng(c["sig"]["s"] + 7)
        x = x0
        ax = np.abs(x)
        if not np.any(ax):
            return False
        u = ax + ax.max() * 10.0 ** r.uniform(c["lo"], 0, m)
        tau = 10.0 ** c["tau"]
        B = Buf(b, name="b")
        p = L.sh_lb_new(0, m, n, B.p, eps, tau)
        try:
            X, U = Buf(x, name="x"), Buf(u, name="u")
            s = L.sh_lb_feasible(p, X.p)
            require(s == 0, "the strictly feasible point is called infeasible (%d)", s)
            fv = L.sh_lb_feval(p, X.p, U.p)
            X.unchanged("x")
            U.unchanged("u")
            want = functional(A, b, eps, tau, x, u)
            sc = u.sum() + (np.abs(np.log(u - x)).sum() + np.abs(np.log(u + x)).sum()
                            + 40) / tau
            require(abs(fv - want) <= 1e-9 * sc, "barrier functional %r, expected %r", fv, want)
            require(L.sh_lb_fval(p) == fv, "the functional stored is not the one returned")
            g, H = system(A, b, eps, tau, x, u)
            for k, w in ((0, A @ x - b), (1, x - u), (2, -x - u)):
                v = arr(L, p, k, n if k == 0 else m)
                require(np.max(np.abs(v - w)) <= 1e-10 * (np.abs(w).max() + np.abs(b).max()
                                                         + ax.max()),
                        "%s is wrong", ["the residual", "x - u", "-x - u"][k])
            arr(L, p, 3, m)[:] = 0
            cg, ci = Buf(1), Buf(1, dtype=np.int32)
            s = L.sh_lb_descent(p, 1e-13, 20 * m + 50, cg.p, ci.p)
            require(s == 0, "no descent direction for a positive definite system")
            gl = arr(L, p, 5, 2 * m)
            gs = np.concatenate([np.abs(1 / (x - u)) + np.abs(1 / (x + u)), tau + np.abs(
                1 / (x - u)) + np.abs(1 / (x + u))]) / tau
            fe = (eps * eps - np.sum((A @ x - b) ** 2)) / 2
            nA = np.linalg.norm(A, 2)
            ex = (1e-11 * np.linalg.norm(A.T @ (A @ x - b))
                  + 1e-14 * nA * (nA * np.linalg.norm(x) + np.linalg.norm(b))) / fe / tau
            # the constraint's own rounding: eps^2 - |r|^2 cancels near the boundary
            am = eps * eps / (2 * fe)
            require(np.all(np.abs(gl - g) <= 1e-10 * gs + ex * am),
                    "the gradient is wrong by %r", np.max(np.abs(gl - g)))
            dx, du = arr(L, p, 3, m).copy(), arr(L, p, 4, m).copy()
            d, k = solve(H, -tau * g)
            if k < 1e8 and am < 1e4:
                e = np.linalg.norm(np.concatenate([dx, du]) - d) / np.linalg.norm(d)
                require(e <= 1e-13 * k * am * 100 + 1e-9, "the direction is not the Newton "
                        "direction (relative error %r, condition %r)", e, k)
            # largest step, along any direction
            dx, du = (dx, du) if c["dir"] else (r.standard_normal(m), r.standard_normal(m))
            if not c["dir"]:
                dx, du = dx * 10.0 ** c["len"] * ax.max(), du * 10.0 ** c["len"] * ax.max()
            arr(L, p, 3, m)[:] = dx
            arr(L, p, 4, m)[:] = du
            got, want = L.sh_lb_maxstep(p), max_step(A, b, eps, x, u, dx, du)
            require(abs(got - want) <= 1e-8 * want * am, "largest step %r, expected %r", got,
                    want)
            # outside
            q = r.standard_normal(m)
            aq = np.linalg.norm(A @ q)
            if aq > 0:
                XI = Buf(x + q * (3 * eps / aq), name="x")
                s = L.sh_lb_feasible(p, XI.p)
                require(s == lib.INFEASIBLE_START, "an infeasible point is not recognised "
                        "(%d)", s)
            # start values
            V, ot = Buf(m, name="u"), Buf(1)
            oi = Buf(1, dtype=np.int32)
            O = lib.l1qc_opts(**c["o"])
            s = L.sh_lb_init(m, X.p, V.p, O.p, ot.p, oi.p)
            require(s == 0, "initialisation returned %d", s)
            V.guards()
            X.unchanged("x")
            require(np.all(V.a > ax * (1 - 1e-15)), "the initial bounds u do not exceed |x|")
            uw = .95 * ax + .1 * ax.max()
            require(np.max(np.abs(V.a - uw)) <= 1e-13 * ax.max(), "initial u is wrong")
            tw = max((2 * m + 1) / ax.sum(), 1.)
            require(abs(ot.a[0] - tw) <= 1e-12 * tw, "initial tau %r, expected %r", ot.a[0], tw)
            if c["o"]["lbiter"]:
                require(oi.a[0] == c["o"]["lbiter"], "%d barrier iterations, requested %d",
                        oi.a[0], c["o"]["lbiter"])
            else:
                v = (np.log(2 * m + 1) - np.log(c["o"]["lbtol"]) - np.log(tw)) / np.log(
                    c["o"]["mu"])
                require(oi.a[0] in (np.ceil(v - 1e-9), np.ceil(v + 1e-9)), "%d barrier "
                        "iterations, expected %d", oi.a[0], np.ceil(v))
        finally:
            L.sh_lb_free(p)
        B.unchanged("b")
        return dict(nt=True, labels=["mat" if R.kind == lib.MAT else "dct"])
    return c05.with_op(L, c, f)


sig = signal.map(lambda d: dict(d, er=max(d["er"], -2.)))

TESTS = [
    Test("path", st.fixed_dictionaries(dict(op=c05.operator(24, 8), sig=sig, o=opts())), check,
         variant="wrap", quick=40000, thorough=6 * 10 ** 5, shards=4, cap=40,
         cap_thorough=600, chunk=50),
    Test("path-large", st.fixed_dictionaries(dict(op=c05.operator(120, 12), sig=sig,
                                                  o=opts())), check, variant="wrap",
         quick=4000, thorough=5 * 10 ** 4, shards=1, cap=40, cap_thorough=400, chunk=20),
    Test("inexact", st.fixed_dictionaries(dict(op=c05.operator(24, 8), sig=sig, o=opts(),
        cg=st.fixed_dictionaries(dict(cg_tol=st.sampled_from([1e-1, 1e-2, 1e-3, 1e-6]),
                                      cg_maxiter=st.sampled_from([2, 3, 4, 5, 6, 8, 12]))))),
         check_inexact, variant="wrap", quick=30000, thorough=4 * 10 ** 5, shards=2, cap=40,
         cap_thorough=400, chunk=50),
    Test("blocks", st.fixed_dictionaries(dict(
        op=c05.operator(60, 12), sig=sig, o=opts(), tau=st.floats(-1, 4),
        lo=st.floats(-4, 0), S=st.one_of(st.just(0), st.floats(-10, 7)), dir=st.booleans(), len=st.floats(-3, 2))), check_blocks,
         variant="wrap", quick=30000, thorough=4 * 10 ** 5, shards=2, cap=40,
         cap_thorough=400, chunk=50, internals=True),
]
