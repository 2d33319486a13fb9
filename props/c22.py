"""C22: NESTA makes the steps of Nesterov's method on the smoothed problem, through the
documented continuation, and stops each stage where its tolerance says."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from props import c07
from vf import gen, lib, ref
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = as for C07, with stopping tolerances coarse enough that the number of "
        "iterations is small; non-trivial when samples are not all zero and at least three "
        "iterations are made.  Building blocks: (operator set, iterate, gradient, smoothing "
        "and Lipschitz constants), non-trivial when the constraint is active")
ASSUMPTIONS = ["pixel indices are distinct and sigma > 0; synthesis without TV weights",
               "runs in which a stopping test is decided by less than one part in 1e4 are "
               "skipped: rounding may then decide it either way",
               "the tolerance of the first stage starts from 0.1 and the smoothing from 0.9 "
               "of the largest analysis coefficient of A'b, both shrinking geometrically to "
               "the requested values, as the code documents"]


def smooth(w, mu):
    a = np.abs(w)
    u = w / np.maximum(mu, a)
    return float(np.where(a < mu, w * w / (2 * mu), a - mu / 2).sum()), u


def project(R, b, Atb, sigma, Lmu, xx, g):
    """argmin Lmu/2 |x - xx|^2 + <g, x> over |Ax - b| <= sigma, for A A' = I"""
    q = xx - g / Lmu
    Aq = R.ref("Ax", q)
    e = np.linalg.norm(Aq - b)
    if e <= sigma:
        return q
    # move the residual onto the sphere; A A' = I
    return q + R.ref("Aty", (b - Aq) * (1 - sigma / e))


def nesta(R, normW, b, mu, tol, sigma, nc, cap):
    """(x, iterations per stage, smallest relative distance of a stopping test from its
    threshold, smallest distance of the iterates' kink decisions); None beyond cap"""
    Atb = R.ref("Aty", b)
    xo = Atb.copy()
    mu0 = max(.9 * np.max(np.abs(R.ref("Wtx", xo))), mu)
    L = normW ** 2
    x = xo.copy()
    margin = np.inf
    its = []
    for j in range(1, nc + 1):
        muj = mu0 * (mu / mu0) ** (j / nc)
        tolj = .1 * (tol / .1) ** (j / nc)
        Lmu = L / muj
        gs = np.zeros_like(x)
        hist = []
        for k in range(10000):
            if sum(its) + k > cap:
                return None
            f, u = smooth(R.ref("Wtx", x), muj)
            g = R.ref("Wz", u)
            y = project(R, b, Atb, sigma, Lmu, x, g)
            gs = gs + .5 * (k + 1) * g
            z = project(R, b, Atb, sigma, Lmu, xo, gs)
            t = 2 / (k + 3)
            x = t * z + (1 - t) * y
            stop = False
            if hist:
                fb = np.mean(hist[-10:])
                if fb == 0 or not np.isfinite(f):
                    return None
                d = abs(f - fb) / fb
                margin = min(margin, abs(d - tolj) / tolj)
                stop = d < tolj
            hist.append(f)
            if stop:
                break
        its.append(k + 1)
        xo = x.copy()
    return x, its, margin


@st.composite
def cases(draw, mx):
    d = draw(c07.cases(False, mx))
    d["tol"] = draw(st.floats(-5, -.3))
    d["mu"] = draw(st.floats(-3, .5))
    d["sr"] = draw(st.floats(-2, .2))
    d["av"] = min(d["av"], 7.)
    d["ah"] = min(d["ah"], 7.)
    return d


def check(c, L):
    R, b, nb, sigma, mu, x = c07.run(c, L)
    if nb == 0:
        return False
    want = nesta(R, c07_norm(R), b, mu, 10.0 ** c["tol"], sigma, c["nc"],
                 400 if R.mt < 200 else 120)
    if want is None or want[2] < 1e-4:
        return False
    xw, its, _ = want
    s = np.abs(xw).max() + np.abs(b).max()
    e = np.abs(x - xw)
    i = int(np.argmax(e))
    require(e[i] <= 1e-6 * s, "element %d is %r; %r steps per stage of the documented method "
            "give %r", i, x[i].item(), its, xw[i].item())
    return dict(nt=sum(its) > 2, labels=c07.labels(c, R) + ["steps<%d" % (
        10 * (1 + sum(its) // 10) if sum(its) < 50 else 1000)])


def c07_norm(R):
    # the documented bound: ||W||^2 <= 1 + 4 av^2 + 4 ah^2 in analysis, 1 in synthesis
    return NORM[0](R)


def check_blocks(c, L):
    m = c["r"] * c["c"]
    iv = gen.mkidx(c["idx"], m)
    I = lib.ibuf(iv, "pix_idx")
    s = L.setup(0, lib.TV, len(iv), c["r"], c["c"], c["av"], c["ah"], c["mode"], c["bp"],
                idx=I)
    require(s == 0, "set-up of a valid operator returned %d", s)
    R = ref.Ops(lib.TV, c["r"], c["c"], iv, c["mode"], c["av"], c["ah"], c["bp"])
    r = np.random.default_rng(c["s"])
    sc = 10.0 ** c["sc"]
    b = r.standard_normal(R.n) * sc
    nb = np.linalg.norm(b)
    sigma = 10.0 ** c["sr"] * nb
    Wb = np.abs(R.ref("Wtx", R.ref("Aty", b)))
    mu, tol = 10.0 ** c["mu"] * Wb.max(), 10.0 ** c["tol"]
    B, out = Buf(b, name="b"), Buf(9)
    np_ = L.sh_np_new(0)
    require(bool(np_), "no problem structure")
    try:
        o = lib.nesta_opts(mu, tol, sigma, c["nc"], 0)
        s = L.sh_np_setup(np_, 0, B.p, o.p, out.p)
        require(s == 0, "set-up of a valid problem returned %d", s)
        bm, bt, muj, tolj = out.a[:4]
        mu0 = max(.9 * Wb.max(), mu)
        require(abs(muj - mu0) <= 1e-9 * mu0, "initial smoothing %r, expected %r", muj, mu0)
        require(abs(tolj - .1) <= 1e-12, "initial tolerance %r, expected 0.1", tolj)
        require(abs(muj * bm ** c["nc"] - mu) <= 1e-9 * mu, "%d stages take the smoothing to "
                "%r, requested %r", c["nc"], muj * bm ** c["nc"], mu)
        require(abs(tolj * bt ** c["nc"] - tol) <= 1e-9 * tol, "%d stages take the tolerance "
                "to %r, requested %r", c["nc"], tolj * bt ** c["nc"], tol)
        xo = arr(L, np_, 0, m)
        A = R.ref("Aty", b)
        require(np.max(np.abs(xo - A)) <= 1e-12 * nb, "the start is not A'b")
        # functional and gradient at a random point
        mj = mu0 * 10.0 ** c["mj"]
        L.sh_np_set_mu(np_, mj)
        xk = r.standard_normal(m) * sc * (r.random(m) < c["dens"])
        arr(L, np_, 1, m)[:] = xk
        f = L.sh_np_feval(np_)
        w = R.ref("Wtx", xk)
        fw, u = smooth(w, mj)
        # the general formula cancels when |w| << mu: u.w - mu/2 u.u
        require(abs(f - fw) <= 1e-11 * (fw + np.abs(u * w).sum()), "smoothed norm %r, "
                "expected %r", f, fw)
        g = arr(L, np_, 3, m).copy()
        gw = R.ref("Wz", u)
        require(np.max(np.abs(g - gw)) <= 1e-11 * (np.abs(gw).max() + R.amp("Wz")),
                "the gradient is wrong by %r", np.max(np.abs(g - gw)))
        # projection
        xx, gg = (A + r.standard_normal(m) * sc * 10.0 ** c["d1"],
                  r.standard_normal(m) * 10.0 ** c["d2"])
        X, G, V = Buf(xx, name="xx"), Buf(gg, name="g"), Buf(m, name="vk")
        L.sh_np_project(np_, X.p, G.p, V.p)
        V.guards()
        X.unchanged("xx")
        G.unchanged("g")
        Lmu = c07_norm(R) ** 2 / mj
        want = project(R, b, A, sigma, Lmu, xx, gg)
        tolp = 1e-10 * (np.abs(xx).max() + np.abs(gg).max() / Lmu + nb)
        e = np.max(np.abs(V.a - want))
        require(e <= tolp, "the projected step is off by %r", e)
        act = np.linalg.norm(R.ref("Ax", xx - gg / Lmu) - b) > sigma
        B.unchanged("b")
    finally:
        L.sh_np_free(np_)
        L.sh_destroy(0)
    return dict(nt=bool(act), labels=["active" if act else "inactive"] + c07.labels(
        dict(c, sig="noise"), R)[:3])


def arr(L, np_, which, n):
    p = L.sh_np_arr(np_, which)
    return np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_double)), (n,))


@st.composite
def block_cases(draw, mx):
    d = draw(cases(mx))
    d.update(mj=draw(st.floats(-3, 0)), dens=draw(st.sampled_from([0., .3, 1.])),
             d1=draw(st.floats(-3, 2)), d2=draw(st.floats(-3, 2)))
    return d


def check_mean(c, L):
    """the stopping test's mean: of the last ten values, or of all when there are fewer"""
    v = gen.mkvec(c["v"], c["n"])
    V, M = Buf(v), Buf(c["n"])
    n = L.sh_fifo_len()
    s = L.sh_fifo(c["n"], V.p, M.p)
    require(s == 0, "no mean buffer")
    M.guards()
    for i in range(c["n"]):
        w = v[max(0, i + 1 - n):i + 1]
        require(abs(M.a[i] - w.mean()) <= 1e-13 * np.abs(w).max() + 1e-300, "mean after %d "
                "values is %r, expected %r", i + 1, M.a[i].item(), w.mean().item())
    return bool(np.any(v))


NORM = [lambda R: np.sqrt(1 + 4 * R.av ** 2 + 4 * R.ah ** 2) if R.bp == 1 else 1.]

TESTS = [
    Test("path", cases(80), check, variant="wrap", quick=40000, thorough=6 * 10 ** 5,
         shards=4, cap=40, cap_thorough=600, chunk=50),
    Test("path-large", cases(1500), check, variant="wrap", quick=3000,
         thorough=5 * 10 ** 4, shards=1, cap=40, cap_thorough=400, chunk=20),
    Test("blocks", block_cases(150), check_blocks, variant="wrap", quick=30000,
         thorough=4 * 10 ** 5, shards=2, cap=40, cap_thorough=400, chunk=100,
         internals=True),
    Test("mean", st.fixed_dictionaries(dict(n=st.integers(1, 60), v=gen.vec())), check_mean,
         variant="wrap", quick=5000, thorough=10 ** 5, shards=1, cap=20, cap_thorough=100,
         internals=True),
]
