"""C07: the first-order (NESTA) solver returns a point inside the data constraint that
nearly minimises the smoothed l1 norm it was asked to minimise."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, lib, ref
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = (image shape, transform, sampled pixels, analysis with any TV weights or "
        "synthesis, samples incl. all-zero, radius, smoothing, tolerance, number of "
        "continuation steps); non-trivial when fewer pixels are sampled than exist and "
        "the samples are not all zero")
ASSUMPTIONS = ["pixel indices are distinct and sigma > 0",
               "synthesis without TV weights (with them A A' is not the identity, which "
               "the method requires)",
               "near-optimality is asked of runs with a stopping tolerance of at most "
               "1e-12, mu at least 1e-3 of the largest coefficient and sigma at least "
               "1e-2 of ||b||, TV weights at most 7 and two or more continuation steps with "
               "TV; feasibility of every run",
               "the slack of the optimality bound (5% of the objective with TV weights, "
               "0.5% without) is calibrated on 40000 runs (largest seen: 0.75% / 0.03%)"]


def dual(R, b, sigma, x, mu, one):
    """(f, f_mu, certified lower bounds of both).  Any z with |z| <= 1 and Wz = R'l gives
    b'l - sigma|l| (- mu/2 |z|^2) <= optimum."""
    w = R.ref("Wtx", x)
    a = np.abs(w)
    f = a.sum()
    fmu = np.where(a < mu, w * w / (2 * mu), a - mu / 2).sum()
    u = w / np.maximum(mu, a)
    if R.bp == lib.SYNTHESIS:
        lam = R.ref("Ax", u)
        z = R.ref("Aty", lam)
    else:
        lam = R.ref("Wz", u)[R.idx]
        rl = R.Rt(lam)
        z = u.copy()
        z[:R.mt] = 0
        z[:R.mt] = ref.dct(rl - R.ref("Wz", z), R.mrow, R.mcol, one)
    zi = np.max(np.abs(z))
    best = bestmu = 0.0
    if zi > 0:
        v = abs(b @ lam) - sigma * np.linalg.norm(lam)
        if v > 0:
            best = v / zi
            s = min(1 / zi, v / (mu * (z @ z)))
            bestmu = s * v - s * s * mu / 2 * (z @ z)
    return f, fmu, best, bestmu


@st.composite
def cases(draw, tight, mx=80):
    bp = draw(st.sampled_from([1, 1, 2]))
    av = ah = 0.
    mn = 1
    if bp == 1:
        al = st.sampled_from([0., 0., .5, 1., .1, 2.5, 7.]) if tight else gen.alpha_tv
        av, ah = draw(al), draw(al)
        if av or ah:
            mn = 3
    r, c = draw(gen.image(max(12, int(mx ** .5)), mx, mn))
    d = dict(r=r, c=c, bp=bp, av=av, ah=ah, mode=draw(st.sampled_from([1, 2])),
             idx=draw(gen.idx()), s=draw(st.integers(0, 10 ** 6)),
             sig=draw(st.sampled_from(["noise", "sparse", "steps", "zero", "const"])),
             sc=draw(st.one_of(st.floats(-2, 2), st.sampled_from([-6, 6]))),
             nc=draw(st.integers(2 if tight and mn == 3 else 1, 7)), verb=draw(st.sampled_from([0, 0, 0, 1, 7])))
    if tight:
        d.update(sr=draw(st.floats(-2, -.1)), mu=draw(st.floats(-3, 0)),
                 tol=draw(st.floats(-14, -12)))
    else:
        d.update(sr=draw(st.floats(-4, .5)), mu=draw(st.floats(-5, 1)),
                 tol=draw(st.floats(-9, 0)))
    return d


def run(c, L):
    m = c["r"] * c["c"]
    iv = gen.mkidx(c["idx"], m)
    I = lib.ibuf(iv, "pix_idx")
    s = L.setup(0, lib.TV, len(iv), c["r"], c["c"], c["av"], c["ah"], c["mode"], c["bp"],
                idx=I)
    require(s == 0, "set-up of a valid operator returned %d", s)
    R = ref.Ops(lib.TV, c["r"], c["c"], iv, c["mode"], c["av"], c["ah"], c["bp"])
    r = np.random.default_rng(c["s"])
    k = c["sig"]
    if k == "noise":
        img = r.standard_normal(m)
    elif k == "sparse":
        img = ref.idct(r.standard_normal(m) * (r.random(m) < .2), c["r"], c["c"], R.one)
    elif k == "steps":
        img = np.cumsum(r.standard_normal(m) * (r.random(m) < .1))
    elif k == "const":
        img = np.ones(m)
    else:
        img = np.zeros(m)
    b = img[iv] * 10.0 ** c["sc"]
    nb = np.linalg.norm(b)
    if k != "zero" and nb < 1e-3 * 10.0 ** c["sc"]:
        b = b + 10.0 ** c["sc"]
        nb = np.linalg.norm(b)
    sigma = 10.0 ** c["sr"] * (nb or 1.)
    mx = np.max(np.abs(R.ref("Wtx", R.ref("Aty", b)))) or 1.
    mu = 10.0 ** c["mu"] * mx
    tol = 10.0 ** c["tol"]
    B, X = Buf(b, name="b"), Buf(m, name="xk")
    o = lib.nesta_opts(mu, tol, sigma, c["nc"], c["verb"])
    L.sh_log_replace(2)
    try:
        s = L.sh_nesta(0, m, X.p, len(iv), B.p, o.p)
    finally:
        L.sh_log_replace(0)
        L.sh_destroy(0)
    require(s == 0, "a valid problem returned status %d", s)
    X.guards()
    B.unchanged("b")
    I.unchanged("pix_idx")
    x = X.a
    require(np.all(np.isfinite(x)), "the result is not finite")
    rn = np.linalg.norm(R.ref("Ax", x) - b)
    require(rn <= sigma * (1 + 1e-8) + 1e-11 * nb, "the result violates the constraint: "
            "||Ax-b|| = %r > sigma = %r", rn, sigma)
    return R, b, nb, sigma, mu, x


def labels(c, R):
    return ["analysis" if c["bp"] == 1 else "synthesis",
            "tv%d" % ((c["av"] > 0) + 2 * (c["ah"] > 0)), "1d" if R.one else "2d",
            c["sig"], "nc%d" % c["nc"]]


def check_opt(c, L):
    R, b, nb, sigma, mu, x = run(c, L)
    f, fmu, lo, lomu = dual(R, b, sigma, x, mu, R.one)
    slack = (.05 if c["av"] or c["ah"] else .005) * f + 1e-9 * nb
    require(f - lo <= mu * R.p / 2 + slack, "objective %r is %r above a certified lower "
            "bound; smoothing explains only %r", f, f - lo, mu * R.p / 2)
    require(fmu - lomu <= slack, "the objective smoothed with the requested mu is %r, "
            "certified lower bound %r", fmu, lomu)
    return dict(nt=nb > 0 and R.n < R.mt, labels=labels(c, R))


def check_feas(c, L):
    R, b, nb, sigma, mu, x = run(c, L)
    return dict(nt=nb > 0 and R.n < R.mt, labels=labels(c, R))


TESTS = [
    Test("optimal", cases(True, 64), check_opt, variant="wrap", quick=30000,
         thorough=10 ** 6, shards=6, cap=35, cap_thorough=700, chunk=50),
    Test("feasible", cases(False, 400), check_feas, variant="wrap", quick=20000,
         thorough=4 * 10 ** 5, shards=2, cap=35, cap_thorough=400, chunk=50),
    Test("large", cases(False, 6000).map(lambda c: dict(
        c, tol=max(c["tol"], -4.), mu=max(c["mu"], -2.))), check_feas, variant="wrap",
         quick=1000, thorough=2 * 10 ** 4, shards=1, cap=35, cap_thorough=400, chunk=10),
]
