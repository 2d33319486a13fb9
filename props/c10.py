"""C10: the backtracking line searches accept the first step of the geometric sequence
that gives sufficient decrease, and leave everything alone when none does."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = (dimension, point, direction, one- or two-variable search, step parameters, "
        "and the value the objective returns at each trial: passing, failing, NaN, +-inf); "
        "non-trivial when the first trial is not the accepted one")
ASSUMPTIONS = ["trial values exactly on the acceptance line are not generated (the "
               "documentation says <, the code <=)"]

F1 = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p, ctypes.c_void_p)
F2 = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)


@st.composite
def cases(draw):
    k = draw(st.one_of(st.integers(0, 6), st.integers(0, 34)))
    return dict(n=draw(gen.size(200, 1, 5000)), two=draw(st.booleans()),
                x=draw(gen.vec(emin=-3, emax=3)), dx=draw(gen.vec(emin=-3, emax=3)),
                u=draw(gen.vec(emin=-3, emax=3)), du=draw(gen.vec(emin=-3, emax=3)),
                s=draw(st.sampled_from([1., .99, 1e-3, 10., .5])),
                al=draw(st.sampled_from([.01, .25, .5, 1e-4])),
                be=draw(st.sampled_from([.5, .9, .1, .25])),
                f0=draw(st.sampled_from([0., 1., -3.5, 1e4, -1e-3])),
                g=draw(st.sampled_from([-1., -1e-3, -50., 0., 2.])),
                bad=draw(st.lists(st.sampled_from(["fail", "nan", "inf", "near"]),
                                  min_size=k, max_size=k)),
                good=draw(st.sampled_from(["pass", "-inf", "near"])))


def check(c, L):
    n = c["n"]
    x, dx, u, du = [Buf(gen.mkvec(c[k], n), name=k) for k in ("x", "dx", "u", "du")]
    w = [Buf(n, name="work") for _ in range(2)]
    lim = 32
    seen = []
    steps = [c["s"]]
    for _ in range(80):
        steps.append(c["be"] * steps[-1])
    gap = max(1.0, abs(c["f0"])) * 1e-6

    def value(k):
        line = c["f0"] + c["al"] * steps[min(k, 80)] * c["g"]
        if k < len(c["bad"]):
            return {"fail": line + 1 + abs(line), "nan": np.nan, "inf": np.inf,
                    "near": line + gap}[c["bad"][k]]
        return {"pass": line - 1, "-inf": -np.inf, "near": line - gap}[c["good"]]

    def grab(p):
        return np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_double)),
                                     (n,)).copy()

    def f1(d, p):
        seen.append((d, grab(p), None))
        return float(value(len(seen) - 1))

    def f2(d, p, q):
        seen.append((d, grab(p), grab(q)))
        return float(value(len(seen) - 1))

    cb = F2(f2) if c["two"] else F1(f1)
    fx0 = Buf(np.array([c["f0"]]), name="fx0")
    out = Buf(4)
    data = ctypes.c_void_p(0x5eed0)
    cp = ctypes.cast(cb, ctypes.c_void_p)
    L.sh_log_replace(2)
    try:
        if c["two"]:
            wp = (ctypes.c_void_p * 2)(*[b.p.value for b in w])
            L.sh_ls_xu(n, x.p, u.p, dx.p, du.p, fx0.p, c["g"], data, cp, c["s"], c["al"],
                       c["be"], wp, out.p)
        else:
            L.sh_ls(n, x.p, dx.p, fx0.p, c["g"], data, cp, c["s"], c["al"], c["be"],
                    w[0].p, out.p)
    finally:
        L.sh_log_replace(0)
    for b in (x, u, dx, du, w[0], w[1], fx0):
        b.guards()
    dx.unchanged("dx")
    du.unchanged("du")
    ok = len(c["bad"]) < lim
    want = len(c["bad"]) + 1 if ok else lim
    require(len(seen) == want, "%d objective evaluations, expected %d", len(seen), want)

    def near(a, x0, d0, s):
        e = x0 + s * d0
        return np.all(np.abs(a - e) <= 1e-14 * (np.abs(x0) + abs(s) * np.abs(d0)) + 1e-300)

    for k, (d, p, q) in enumerate(seen):
        require(d == 0x5eed0, "the objective did not get its data pointer")
        require(near(p, x.orig, dx.orig, steps[k]), "trial %d is not at x + s*beta^%d*dx",
                k + 1, k)
        if q is not None:
            require(near(q, u.orig, du.orig, steps[k]), "trial %d is not at "
                    "u + s*beta^%d*du", k + 1, k)
    if ok:
        k = want - 1
        require(out.a[3] == 0, "a successful search reported status %d", out.a[3])
        require(np.array_equal(x.a, seen[k][1]), "x is not the accepted trial point")
        if c["two"]:
            require(np.array_equal(u.a, seen[k][2]), "u is not the accepted trial point")
        else:
            u.unchanged("u")
        require(fx0.a[0] == value(k), "the objective value returned is %r, not that of the "
                "accepted point (%r)", fx0.a[0], value(k))
        require(abs(out.a[1] - steps[k]) <= 1e-13 * steps[k], "reported step %r, used %r",
                out.a[1], steps[k])
        require(out.a[2] == want, "reported %d iterations, made %d", out.a[2], want)
    else:
        require(out.a[3] != 0, "a failed search reported success")
        x.unchanged("x of a failed search")
        u.unchanged("u of a failed search")
        require(fx0.a[0] == c["f0"], "a failed search changed the objective value")
        require(out.a[2] == lim, "reported %d iterations, made %d", out.a[2], lim)
    return dict(nt=len(c["bad"]) > 0,
                labels=["xu" if c["two"] else "x", "fails" if not ok else "ok"])


TESTS = [Test("search", cases(), check, variant="wrap", quick=100000, thorough=2 * 10 ** 6,
              shards=8, cap=25, cap_thorough=400, chunk=300)]
