"""C23: TV denoising walks the split-Bregman iteration of Goldstein and Osher: stopped after
any number of iterations it returns that iterate, and so does each of its building blocks."""
import numpy as np
from hypothesis import strategies as st

from props import c08
from props.c08 import IMG, div, grads, mkimg, run
from vf import gen
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = (image of at least 3x3, fidelity weight, number of iterations, sweeps per "
        "iteration, tolerance 0 or met at a known iteration); non-trivial when the image is "
        "not constant and at least one iteration is made.  For the building blocks: (sides, "
        "vectors of any kind and scale, weights), non-trivial when the input is not zero")
ASSUMPTIONS = ["both image sides are at least 3, arrays are aligned as the library's "
               "allocator aligns them, weights are positive",
               "the splitting weight is twice the fidelity weight, as the code documents "
               "nowhere but has always used; it decides the path, not the limit",
               "iterates are compared to 1e-9 of the image's magnitude; the iteration is "
               "nonexpansive, so rounding does not grow"]


def sweep(u, rhs, mu, lam):
    """one lexicographic Gauss-Seidel sweep on mu I + lam (Dx'Dx + Dy'Dy), by
    anti-diagonals (entries of one anti-diagonal do not depend on one another)"""
    n, m = u.shape
    p = np.zeros((n + 2, m + 2))
    p[1:-1, 1:-1] = u
    deg = np.full((n, m), 4.)
    deg[0] -= 1
    deg[-1] -= 1
    deg[:, 0] -= 1
    deg[:, -1] -= 1
    for k in range(n + m - 1):
        i = np.arange(max(0, k - m + 1), min(n, k + 1))
        j = k - i
        s = p[i, j + 1] + p[i + 2, j + 1] + p[i + 1, j] + p[i + 1, j + 2]
        p[i + 1, j + 1] = (rhs[i, j] + lam * s) / (mu + deg[i, j] * lam)
    return p[1:-1, 1:-1].copy()


def shrink(x, g):
    return np.sign(x) * np.maximum(np.abs(x) - g, 0)


def iterate(f, mu, K, jac, tol=0.):
    """(iterates 0..K as far as tol lets them, relative changes)"""
    lam = 2 * mu
    u, prev = f.copy(), np.zeros_like(f)
    z = np.zeros_like(f)
    dx, dy, bx, by = z, z, z, z
    out, rel = [u], []
    for k in range(K):
        rhs = mu * f + lam * div(dx - bx, dy - by)
        for _ in range(jac):
            u = sweep(u, rhs, mu, lam)
        d = np.linalg.norm(prev)
        rel.append(np.linalg.norm(u - prev) / d if d > 0 else np.inf)
        gx, gy = grads(u)
        gx, gy = gx + bx, gy + by
        dx, dy = shrink(gx, 1 / lam), shrink(gy, 1 / lam)
        bx, by = gx - dx, gy - dy
        prev = u
        out.append(u)
    return out, rel


@st.composite
def cases(draw, mxtot, kmax):
    n, m = draw(gen.image(int(mxtot ** .5) + 6, mxtot, 3))
    return dict(n=n, m=m, img=draw(st.sampled_from(IMG)), s=draw(st.integers(0, 10 ** 6)),
                sc=draw(st.sampled_from([0., 0., 3., -3., 1., 6.])),
                mr=draw(st.floats(-3, 3)), jac=draw(st.sampled_from([1, 1, 2, 3, 8, 0])),
                k=draw(st.integers(0, kmax)), stop=draw(st.sampled_from([0, 0, 1, 2])),
                t=draw(st.integers(0, 10 ** 6)))


def check(c, L):
    f = mkimg(c)
    mu = c08.weights(c, f)
    K, jac = c["k"], c["jac"]
    its, rel = iterate(f, mu, K, jac)
    tol, want = 0., K
    # a fixed point reached exactly: relative change 0 is not below tolerance 0
    if c["stop"] and K >= 2:
        tol = rel[1 + c["t"] % (K - 1)] * (1.0001 if c["stop"] == 1 else .9999)
        if not np.isfinite(tol) or any(abs(r - tol) <= 1e-6 * tol + 1e-12 for r in rel):
            return False
        want = next((k + 1 for k in range(K) if rel[k] < tol), K)
    elif tol == 0 and any(not r == r for r in rel):
        return False
    got = run(L, f, mu, tol, K, jac)
    ref = its[want]
    s = np.abs(f).max() or 1.
    e = np.abs(got - ref)
    i = np.unravel_index(int(np.argmax(np.where(np.isnan(e), np.inf, e))), e.shape)
    require(e[i] <= 1e-9 * s, "pixel %r after %d iterations (limit %d, tolerance %r) of %d "
            "sweeps is %r; split Bregman gives %r", tuple(int(v) for v in i), want, K, tol, jac,
            got[i].item(), ref[i].item())
    return dict(nt=np.ptp(f) > 0 and K > 0, labels=[c["img"], "jac%d" % jac,
                                                    "tol" if want < K else "limit"])


@st.composite
def block_cases(draw, mx):
    n, m = draw(gen.image(int(mx ** .5) + 6, mx, 3))
    return dict(n=n, m=m, v=[draw(gen.vec()) for _ in range(5)],
                mu=draw(st.floats(-3, 3)), lam=draw(st.floats(-3, 3)),
                g=draw(st.sampled_from([0., 1., .5, 2., 1e-6, 1e6])))


def near(got, want, scale, what):
    e = np.abs(got - want)
    e = np.where(np.isnan(e), np.inf, e)
    i = int(np.argmax(e))
    require(e[i] <= 1e-12 * scale + 1e-290, "%s: element %d is %r, expected %r", what, i,
            got[i].item(), want[i].item())


def check_blocks(c, L):
    n, m = c["n"], c["m"]
    N = n * m
    mu, lam = 10.0 ** c["mu"], 10.0 ** c["lam"]
    V = [gen.mkvec(d, N) for d in c["v"]]
    sc = [np.abs(v).max() for v in V]
    # shrink: the exact proximal map of g |.|
    X, D = Buf(V[0], name="x"), Buf(N, name="d")
    L.sh_breg_shrink(N, X.p, D.p, c["g"])
    D.guards()
    X.unchanged("the input of shrink")
    near(D.a, shrink(V[0], c["g"]), sc[0] * 1e-2 + 1e-3 * c["g"], "shrink by %r" % c["g"])
    # z = y - x
    Y, Z = Buf(V[1], name="y"), Buf(N, name="z")
    L.sh_breg_mxpy(N, X.p, Y.p, Z.p)
    Z.guards()
    X.unchanged("x of -x+y")
    Y.unchanged("y of -x+y")
    require(np.array_equal(Z.a, V[1] - V[0]), "-x+y is wrong")
    # Gauss-Seidel sweep
    U, R = Buf(V[0], name="u"), Buf(V[1], name="right-hand side")
    L.sh_breg_gs(n, m, U.p, R.p, mu, lam)
    U.guards()
    R.unchanged("the right-hand side")
    w = sweep(V[0].reshape(n, m), V[1].reshape(n, m), mu, lam).ravel()
    near(U.a, w, sc[0] + sc[1] / (mu + 2 * lam), "Gauss-Seidel sweep")
    # inverse diagonal
    D = Buf(N, name="D")
    L.sh_breg_diag(n, m, mu, lam, D.p)
    D.guards()
    deg = np.full((n, m), 4.)
    deg[0] -= 1
    deg[-1] -= 1
    deg[:, 0] -= 1
    deg[:, -1] -= 1
    di = 1 / (mu + lam * deg.ravel())
    near(D.a, di, di.max(), "inverse diagonal")
    # Jacobi
    U, W, DD = Buf(V[0], name="u"), Buf(N, name="work array"), Buf(V[2], name="D")
    L.sh_breg_jacobi(n, m, U.p, W.p, R.p, DD.p, lam)
    U.guards()
    W.guards()
    R.unchanged("the right-hand side")
    DD.unchanged("D")
    gx, gy = grads(V[0].reshape(n, m))
    off = (deg * V[0].reshape(n, m) - div(gx, gy)).ravel()
    w = V[2] * (V[1] + lam * off)
    near(U.a, w, sc[2] * (sc[1] + 4 * lam * sc[0]), "Jacobi sweep")
    # right-hand side
    B = [Buf(v, name="argument %d" % i) for i, v in enumerate(V)]
    O, W1, W2 = Buf(N, name="rhs"), Buf(N, name="work array"), Buf(N, name="work array")
    f, dx, bx, dy, by = B
    L.sh_breg_rhs(n, m, f.p, dx.p, bx.p, dy.p, by.p, O.p, mu, lam, W1.p, W2.p)
    for b in (O, W1, W2):
        b.guards()
    for b in B:
        b.unchanged(b.name + " of the right-hand side")
    w = mu * V[0] + lam * div((V[1] - V[2]).reshape(n, m), (V[3] - V[4]).reshape(n, m)).ravel()
    near(O.a, w, mu * sc[0] + 4 * lam * max(sc[1:]), "right-hand side")
    return dict(nt=sc[0] > 0 and sc[1] > 0, labels=["row%d" % (n % 8), "col%d" % (m % 8)])


TESTS = [
    Test("path", cases(120, 14), check, variant="wrap", quick=40000, thorough=6 * 10 ** 5,
         shards=3, cap=35, cap_thorough=500, chunk=100),
    Test("path-large", cases(4000, 6), check, variant="wrap", quick=4000,
         thorough=8 * 10 ** 4, shards=2, cap=35, cap_thorough=400, chunk=30),
    Test("blocks", block_cases(150), check_blocks, variant="wrap", quick=30000,
         thorough=4 * 10 ** 5, shards=2, cap=35, cap_thorough=300, chunk=100),
    Test("blocks-large", block_cases(9000), check_blocks, variant="wrap", quick=3000,
         thorough=4 * 10 ** 4, shards=1, cap=35, cap_thorough=300, chunk=30),
]
