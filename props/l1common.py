import numpy as np
from hypothesis import strategies as st

from vf import gen, lib, ref
from vf.lib import Buf, Violation, require


def dual_gap(R, b, eps, x):
    """Certified upper bound on ||x||_1 - optimum: any residual direction, scaled into
    ||A'l||_inf <= 1, is dual feasible, and b'l - eps ||l|| bounds the optimum below."""
    p = float(np.abs(x).sum())
    r = b - R.ref("Ax", x)
    best = 0.0  # l = 0
    for cand in (r, b):
        g = np.max(np.abs(R.ref("Aty", cand)))
        if g > 0:
            l_ = cand / g
            best = max(best, float(b @ l_ - eps * np.linalg.norm(l_)))
    return p - best, p


def schedule_gap(m, l1_start, mu, lbtol, lbiter):
    """What the barrier schedule promises: the user asks for lbtol (reached to within one
    factor mu) or for a number of barrier iterations."""
    tau0 = max((2 * m + 1) / l1_start, 1.0)
    if lbiter:
        return (2 * m + 1) / (tau0 * mu ** (lbiter - 1))
    return max(mu * lbtol, l1_start if (2 * m + 1) / tau0 <= lbtol else 0)


tight = dict(newton_max_iter=150, cg_tol=1e-11, cg_maxiter=3000)


@st.composite
def opts(draw):
    mu = draw(st.sampled_from([10., 2., 5., 20., 50.]))
    lbtol = 10.0 ** draw(st.floats(-5, -1))
    o = dict(mu=mu, lbtol=lbtol, newton_tol=lbtol * 1e-4, l1_tol=0.,
             warm_start_cg=draw(st.sampled_from([0, 1, 2])), lbiter=0, **tight)
    if draw(st.integers(0, 7)) == 0:
        o["lbiter"] = draw(st.integers(1, 5))
    if draw(st.integers(0, 3)) == 0:
        o["verbose"] = draw(st.integers(0, 3))
        o["cg_verbose"] = draw(st.integers(0, 3))
    return o


@st.composite
def sloppy(draw):
    o = draw(opts())
    o["newton_max_iter"] = draw(st.sampled_from([1, 2, 3, 8, 50]))
    o["cg_maxiter"] = draw(st.sampled_from([1, 2, 5, 20, 200]))
    o["cg_tol"] = draw(st.sampled_from([1e-8, 1e-3, .5, 1e-12]))
    o["newton_tol"] = draw(st.sampled_from([1e-3, 1., 1e-8]))
    o["l1_tol"] = draw(st.sampled_from([0., 1e-5, 1e-2, .3]))
    return o


signal = st.fixed_dictionaries(dict(
    s=st.integers(0, 10 ** 6), dens=st.sampled_from([.1, .3, .6, 1.]),
    sc=st.floats(-2, .3), er=st.one_of(st.floats(-3, -.1), st.floats(-.1, .5)),
    noise=st.sampled_from([0., .01, .1]),
    start=st.sampled_from(["ls", "near", "true", "edge", "near", "true"]),
    fr=st.sampled_from([.9, .99, .999, .1, .5, .7])))


def make(R, d):
    """(b, eps, a strictly feasible start)"""
    r = np.random.default_rng(d["s"])
    sc = 10.0 ** d["sc"]
    m = R.m
    xt = r.standard_normal(m) * (r.random(m) < d["dens"]) * sc
    if not np.any(xt):
        xt[r.integers(0, m)] = sc
    b = R.ref("Ax", xt)
    nb = np.linalg.norm(b)
    b = b + r.standard_normal(R.n) * d["noise"] * nb / np.sqrt(R.n)
    nb = np.linalg.norm(b)
    if nb < 1e-3 * sc:  # nothing measured: b would be rounding noise
        b = b + sc
        nb = np.linalg.norm(b)
    eps = 10.0 ** d["er"] * nb
    if R.kind == lib.MAT:
        ls = np.linalg.lstsq(R.A, b, rcond=None)[0]
    else:
        ls = R.ref("Aty", b)
    x0 = ls
    if d["start"] == "true" and np.linalg.norm(R.ref("Ax", xt) - b) < .9 * eps:
        x0 = xt
    elif d["start"] in ("near", "edge"):
        p = r.standard_normal(m)
        na = np.linalg.norm(R.ref("Ax", p))
        if na > 0:
            x0 = ls + p * ((.5 if d["start"] == "near" else d.get("fr", .5)) * eps / na)
    return b, eps, x0
