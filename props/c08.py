"""C08: TV denoising returns the minimiser of the anisotropic TV functional, and stops
exactly where its tolerance and iteration limit say."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, Violation, require

LEVEL = "exploration"
RULE = ("case = (image of at least 3x3 with values of any sign and scale, fidelity weight, "
        "inner sweeps, tolerance, iteration limit); non-trivial when the image is not "
        "constant and the minimiser differs from it")
ASSUMPTIONS = ["both image sides are at least 3; image arrays are aligned as the "
               "library's own allocator aligns them",
               "the minimum is bounded below by a dual feasible point found by an "
               "independent accelerated projected-gradient iteration, so the measured gap "
               "is a true upper bound",
               "optimality is asked of runs with tolerance 1e-13 and an iteration limit "
               "of 6000, mu*range between 0.05 and 50 (from 0.5 beyond 80 pixels)"]


def grads(u):
    gx = np.zeros_like(u)
    gy = np.zeros_like(u)
    gx[:, :-1] = u[:, 1:] - u[:, :-1]
    gy[:-1] = u[1:] - u[:-1]
    return gx, gy


def div(zx, zy):
    """D' z"""
    o = np.zeros_like(zx)
    o[:, 1:] += zx[:, :-1]
    o[:, :-1] -= zx[:, :-1]
    o[1:] += zy[:-1]
    o[:-1] -= zy[:-1]
    return o


def primal(u, f, mu):
    gx, gy = grads(u)
    return np.abs(gx).sum() + np.abs(gy).sum() + mu / 2 * ((u - f) ** 2).sum()


def reference(f, mu, iters=4000, gap_tol=1e-10):
    """(u, dual value): FISTA with restart on the dual"""
    zx, zy = np.zeros_like(f), np.zeros_like(f)
    yx, yy, t = zx, zy, 1.0
    step = mu / 8.0
    best = -np.inf
    for k in range(iters):
        d = div(yx, yy)
        gx, gy = grads(f - d / mu)
        nx, ny = np.clip(yx + step * gx, -1, 1), np.clip(yy + step * gy, -1, 1)
        if ((yx - nx) * (nx - zx)).sum() + ((yy - ny) * (ny - zy)).sum() > 0:
            t = 1.0
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        yx, yy = nx + (t - 1) / tn * (nx - zx), ny + (t - 1) / tn * (ny - zy)
        zx, zy, t = nx, ny, tn
        if k % 50 == 49:
            d = div(zx, zy)
            dual = (d * f).sum() - (d * d).sum() / (2 * mu)
            best = max(best, dual)
            p = primal(f - d / mu, f, mu)
            if p - best <= gap_tol * max(p, 1e-300):
                break
    d = div(zx, zy)
    return f - d / mu, best


IMG = ["noise", "steps", "block", "impulse", "ramp", "const", "ints", "offset"]


def mkimg(c):
    n, m = c["n"], c["m"]
    r = np.random.default_rng(c["s"])
    k = c["img"]
    if k == "noise":
        f = r.standard_normal((n, m))
    elif k == "steps":
        f = np.repeat(r.standard_normal((n, 1)), m, 1) if r.random() < .5 else \
            np.repeat(r.standard_normal((1, m)), n, 0)
    elif k == "block":
        f = np.zeros((n, m))
        a, b = r.integers(0, n), r.integers(0, m)
        f[a:, b:] = 1.
        f = f + .1 * r.standard_normal((n, m))
    elif k == "impulse":
        f = np.zeros((n, m))
        f[r.integers(0, n), r.integers(0, m)] = 1.
    elif k == "ramp":
        f = np.add.outer(np.arange(n) * r.random(), np.arange(m) * r.random())
    elif k == "const":
        f = np.full((n, m), 1.5)
    elif k == "ints":
        f = r.integers(-3, 4, (n, m)).astype(float)
    else:
        f = 100. + r.standard_normal((n, m))
    return f * 10.0 ** c["sc"]


def run(L, f, mu, tol, it, jac):
    n, m = f.shape
    F, U = Buf(f, name="image f"), Buf(n * m, name="uk")
    s = L.l1c_breg_anistropic_TV(n, m, U.p, F.p, mu, tol, it, jac)
    require(s == 0, "status %d for a valid image", s)
    U.guards()
    F.unchanged("the noisy image")
    return U.a.reshape(n, m).copy()


@st.composite
def cases(draw, mxtot, full):
    n, m = draw(gen.image(int(mxtot ** .5) + 6, mxtot, 3))
    return dict(n=n, m=m, img=draw(st.sampled_from(IMG)), s=draw(st.integers(0, 10 ** 6)),
                sc=draw(st.sampled_from([0., 0., 3., -3., 1.])),
                mr=draw(st.floats(-1.3, 1.7)), jac=draw(st.sampled_from([1, 1, 2, 3, 8])),
                t=draw(st.integers(0, 10 ** 6)), k=draw(st.integers(1, 25)))


def weights(c, f):
    rg = np.ptp(f) or abs(f).max() or 1.
    return 10.0 ** c["mr"] / rg


def check_opt(c, L):
    f = mkimg(c)
    mu = weights(c, f)
    u = run(L, f, mu, 1e-13, 6000, c["jac"])
    require(np.all(np.isfinite(u)), "the denoised image is not finite")
    _, lo = reference(f, mu)
    p = primal(u, f, mu)
    # rounding floor: what a perturbation of relative size 1e-13 of f can do
    fl = 1e-11 * np.abs(f).sum()
    require(p - lo <= GAP * abs(p) + fl, "the functional is %r, its minimum at most %r "
            "above the certified bound %r", p, p - lo, lo)
    require(abs(u.sum() - f.sum()) <= 1e-9 * np.abs(f).sum() + 1e-300,
            "the mean of the image changed from %r to %r", f.mean(), u.mean())
    return dict(nt=np.ptp(f) > 0, labels=[c["img"], "jac%d" % c["jac"],
                                          "square" if c["n"] == c["m"] else "rect"])


GAP = 1e-7


def check_opt_large(c, L):
    f = mkimg(c)
    if not np.ptp(f) > 0:
        return False
    mu = weights(c, f)
    x, lo = reference(f, mu, 12000)
    px = primal(x, f, mu)
    if not px - lo <= 1e-8 * px:
        return False  # no certificate
    u = run(L, f, mu, 1e-13, 6000, c["jac"])
    p = primal(u, f, mu)
    require(p - lo <= GAP_LARGE * abs(p) + 1e-11 * np.abs(f).sum(), "the functional is %r, "
            "its minimum at least %r", p, lo)
    require(abs(u.sum() - f.sum()) <= 1e-8 * np.abs(f).sum() + 1e-300,
            "the mean of the image changed from %r to %r", f.mean(), u.mean())
    return dict(nt=True, labels=[c["img"], "jac%d" % c["jac"]])


# worst of 3,300 generated images of up to 3,500 pixels: 2.6e-8
GAP_LARGE = 3e-6


@st.composite
def large_cases(draw):
    n, m = draw(st.tuples(st.integers(3, 70), st.integers(3, 70)).filter(
        lambda t: 80 < t[0] * t[1] <= 3500))
    return dict(n=n, m=m, img=draw(st.sampled_from([i for i in IMG if i != "const"])),
                s=draw(st.integers(0, 10 ** 6)), sc=draw(st.sampled_from([0., 2., -2.])),
                mr=draw(st.floats(-.3, 1.7)), jac=draw(st.sampled_from([1, 2, 3])))


def check_stop(c, L):
    f = mkimg(c)
    mu = weights(c, f)
    K = c["k"]
    its = [run(L, f, mu, 0.0, k, c["jac"]) for k in range(K + 1)]
    require(np.array_equal(its[0], f), "zero iterations must return the image itself")
    z = run(L, f, mu, 10.0 ** (c["t"] % 8 - 6), 0, c["jac"])
    require(np.array_equal(z, f), "zero iterations with a positive tolerance must return the "
            "image itself")
    # k = 1 compares with nothing yet (the zero image)
    rel, rel2 = [np.inf], [np.inf]  # relative to the previous / to the new iterate
    prev = np.zeros_like(f)
    for k in range(1, K + 1):
        d, d2 = np.linalg.norm(prev), np.linalg.norm(its[k])
        e = np.linalg.norm(its[k] - prev)
        rel.append(e / d if d > 0 else np.inf)
        rel2.append(e / d2 if d2 > 0 and k > 1 else np.inf)
        prev = its[k]
    fin = [r for r in rel if np.isfinite(r) and r > 0]
    if not fin:
        return False
    tol = fin[c["t"] % len(fin)] * [1.000001, .999999, 3., .4][c["t"] % 4]
    if any(abs(r - tol) <= 1e-8 * tol + 1e-13 for r in rel):
        return False
    want = next((k for k in range(1, K + 1) if rel[k] < tol), K)
    if want != next((k for k in range(1, K + 1) if rel2[k] < tol), K):
        return False  # documentation and code normalise differently
    got = run(L, f, mu, tol, K, c["jac"])
    if not np.allclose(got, its[want], rtol=1e-9, atol=1e-12 * np.abs(f).max()):
        j = [k for k in range(K + 1) if np.allclose(got, its[k], rtol=1e-9, atol=1e-12 *
                                                    np.abs(f).max())]
        raise Violation("tolerance %r, limit %d: expected iterate %d (relative changes %r),"
                        " got %s" % (tol, K, want, rel[max(0, want - 1):want + 2],
                                     "iterate %d" % j[0] if j else "none of them"))
    return dict(nt=np.ptp(f) > 0 and 1 < want, labels=["tol" if want < K else "limit"])


def check_sym(c, L):
    """relations every intermediate result obeys as well: odd symmetry, scaling, shift"""
    f = mkimg(c)
    mu = weights(c, f)
    it, jac = c["k"], c["jac"]
    u = run(L, f, mu, 0.0, it, jac)
    s = np.abs(f).max()
    v = run(L, -f, mu, 0.0, it, jac)
    require(np.allclose(-v, u, rtol=1e-9, atol=1e-10 * s), "negating the image does not "
            "negate the result")
    q = [2., 8., .25][c["t"] % 3]
    v = run(L, q * f, mu / q, 0.0, it, jac)
    require(np.allclose(v / q, u, rtol=1e-7, atol=1e-8 * s), "scaling the image by %r "
            "(and the weight by its inverse) does not scale the result", q)
    a = s * [1., -2., .5][c["t"] % 3]
    if np.ptp(f) > 1e-3 * s:
        # converged results are shift-equivariant
        u = run(L, f, mu, 1e-13, 4000, jac)
        v = run(L, f + a, mu, 1e-13, 4000, jac)
        rg = np.ptp(f)
        require(np.max(np.abs(v - a - u)) <= SHIFT * rg, "adding a constant to the image "
                "does not just add it to the result (off by %r, range %r)",
                np.max(np.abs(v - a - u)), rg)
        w = run(L, np.ascontiguousarray(f.T), mu, 1e-13, 4000, jac)
        require(np.max(np.abs(w.T - u)) <= SHIFT * rg, "the result of the transposed image "
                "is not the transposed result (off by %r, range %r)",
                np.max(np.abs(w.T - u)), rg)
    return np.ptp(f) > 0


SHIFT = 1e-6

TESTS = [
    Test("optimal", cases(80, True), check_opt, variant="wrap", quick=10000,
         thorough=2 * 10 ** 5, shards=4, cap=35, cap_thorough=700, chunk=30),
    Test("optimal-large", large_cases(), check_opt_large, variant="wrap", quick=400,
         thorough=10 ** 4, shards=2, cap=35, cap_thorough=500, chunk=10),
    Test("stopping", cases(300, False), check_stop, variant="wrap", quick=10000,
         thorough=2 * 10 ** 5, shards=2, cap=35, cap_thorough=400, chunk=50),
    Test("symmetry", cases(150, False), check_sym, variant="wrap", quick=10000,
         thorough=2 * 10 ** 5, shards=2, cap=35, cap_thorough=400, chunk=50),
]
