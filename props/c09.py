"""C09: the conjugate-gradient solvers never return worse than they were given, report
the residual they really reached and stop where they were told to."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, Violation, require

LEVEL = "exploration"
RULE = ("case = (symmetric positive definite system of given spectrum, right-hand side, "
        "start point, optional positive diagonal preconditioner of any scale, tolerance, "
        "iteration limit); non-trivial when the start is not already a solution and at "
        "least one iteration is allowed; runs of up to 130 iterations are compared with "
        "the textbook history where rounding errors of 1e-13 in every step leave it alone")
ASSUMPTIONS = ["A is symmetric positive definite, b is not zero, the preconditioner is "
               "positive; condition number at most 1e6",
               "the reported residual is the recursively updated one: it is compared with "
               "the true one up to a rounding bound proportional to ||A|| ||x|| / ||b||"]


@st.composite
def cases(draw, mx=40, kmax=6.):
    return dict(N=draw(gen.size(mx)), s=draw(st.integers(0, 10 ** 6)),
                kap=draw(st.one_of(st.floats(0, 2), st.floats(0, kmax))),
                spec=draw(st.sampled_from(["log", "two", "ident", "diag", "outlier", "tri"])),
                sa=draw(st.sampled_from([0., 0., -4., 4.])),
                b=draw(st.sampled_from(["normal", "unit", "ones", "small", "big"])),
                x0=draw(st.sampled_from(["zero", "rand", "near", "far", "exact"])),
                pre=draw(st.sampled_from(["none", "none", "jacobi", "unit", "tiny", "huge",
                                          "rand"])),
                tol=draw(st.sampled_from([1e-8, 1e-3, 1e-12, .5, 1e-5, 2., 0.])),
                it=draw(st.one_of(st.integers(0, 8), st.sampled_from([50, 200, 400]))),
                vb=draw(st.sampled_from([0, 0, 0, 1, 3])))


def system(c):
    N = c["N"]
    r = np.random.default_rng(c["s"])
    k = 10.0 ** c["kap"]
    if c["spec"] == "log":
        ev = np.logspace(0, -np.log10(k), N)
    elif c["spec"] == "two":
        ev = np.where(np.arange(N) % 2 == 0, 1., 1 / k)
    elif c["spec"] == "lin":
        ev = np.sort(1 / k + r.random(N) * (1 - 1 / k))
    elif c["spec"] == "lap":
        ev = np.full(N, 1 / k)
    elif c["spec"] == "ident":
        ev = np.ones(N)
    elif c["spec"] == "outlier":
        ev = np.ones(N)
        ev[0] = k
    else:
        ev = 1 / (1 + r.random(N) * (k - 1))
    if c["spec"] in ("tri", "lap"):
        A = np.diag(2 + ev) + np.diag(np.full(N - 1, -1.), 1) + np.diag(np.full(N - 1, -1.), -1)
    elif c["spec"] in ("diag", "ident"):
        A = np.diag(ev)
    else:
        Q = np.linalg.qr(r.standard_normal((N, N)))[0]
        A = (Q * ev) @ Q.T
    A = A * 10.0 ** c["sa"]
    A = (A + A.T) / 2
    b = {"normal": r.standard_normal(N), "ones": np.ones(N),
         "unit": np.eye(N)[r.integers(0, N)], "small": r.standard_normal(N) * 1e-6,
         "big": r.standard_normal(N) * 1e6}[c["b"]]
    if not np.any(b):
        b = np.ones(N)
    if c["spec"] == "plateau":
        # two eigenvalues, and b such that one step takes the residual down by 10^-dl
        t, R = c["t"], 2 * (1 - 10.0 ** c["dl"])
        qa, qb, qc = R * (t - 1) ** 2, 2 * R * (t - 1) - (t * t - 1), R - 1
        v = (-qb + c["sg"] * np.sqrt(qb * qb - 4 * qa * qc)) / (2 * qa)
        Q = np.linalg.qr(r.standard_normal((N, N)))[0]
        ev = np.where(np.arange(N) % 2 == 0, 1., t)
        A = (Q * ev) @ Q.T * 10.0 ** c["sa"]
        A = (A + A.T) / 2
        b = (np.sqrt(1 - v) * Q[:, 0] + np.sqrt(v) * Q[:, 1]) * 10.0 ** c["sb"]
    xs = np.linalg.solve(A, b)
    nx = np.linalg.norm(xs)
    d = r.standard_normal(N)
    d *= nx / np.linalg.norm(d)
    x0 = {"zero": np.zeros(N), "rand": d, "near": xs + 1e-3 * d, "far": xs + 1e3 * d,
          "exact": xs}[c["x0"]]
    mi = {"none": None, "jacobi": 1 / np.diag(A), "unit": np.ones(N),
          "tiny": np.full(N, 1e-5), "huge": np.full(N, 1e5),
          "rand": 10.0 ** r.uniform(-1, 1, N)}[c["pre"]]
    return A, b, x0, mi, xs


def reference(A, b, x0, mi, tol, it, noise=None):
    """residual history of textbook (preconditioned) CG in extended precision; noise: a
    generator of rounding errors, magnified to 1e-13"""
    A, b, x = [np.asarray(v, dtype=np.longdouble) for v in (A, b, x0)]
    m = np.ones_like(b) if mi is None else np.asarray(mi, dtype=np.longdouble)
    nb = np.sqrt(b @ b)
    r = b - A @ x
    h = [float(np.sqrt(r @ r) / nb)]
    z = m * r
    p, dl = z, r @ z
    for k in range(it):
        q = A @ p
        if noise is not None:
            q = q + 1e-13 * np.sqrt(q @ q) * noise.standard_normal(len(q))
        pq = p @ q
        if pq <= 0 or dl <= 0:
            break
        a = dl / pq
        x = x + a * p
        r = r - a * q
        z = m * r
        dn = r @ z
        p = z + dn / dl * p
        dl = dn
        h.append(float(np.sqrt(r @ r) / nb))
        if h[-1] < tol:
            break
    return h


def call(c, L, A, b, x0, mi):
    N = c["N"]
    X, B, AA = Buf(x0, name="x"), Buf(b, name="b"), Buf(A, name="A")
    MI = Buf(mi, name="preconditioner") if mi is not None else None
    W = [Buf(N, name="work array") for _ in range(5)]
    wp = (ctypes.c_void_p * 5)(*[w.p.value for w in W])
    out = Buf(5)
    L.sh_log_replace(2)
    try:
        rc = L.sh_cg(N, X.p, B.p, AA.p, MI.p if MI else None, wp, c["tol"], c["it"],
                     c["vb"], 4 * c["it"] + 100, out.p)
    finally:
        L.sh_log_replace(0)
    require(rc == 0, "more than %d operator applications for a limit of %d iterations",
            4 * c["it"] + 100, c["it"])
    X.guards()
    B.unchanged("b")
    AA.unchanged("A")
    if MI:
        MI.unchanged("the preconditioner")
    for w in W:
        w.guards()
    require(out.a[4] == 0, "the operator was called with a wrong size")
    require(out.a[3] == 0, "status %d", out.a[3])
    return X.a.copy(), out.a.copy()


def check(c, L):
    A, b, x0, mi, xs = system(c)
    x, out = call(c, L, A, b, x0, mi)
    cgres, it = out[0], int(out[1])
    nb, nA = np.linalg.norm(b), np.linalg.eigvalsh(A)[-1]
    require(np.all(np.isfinite(x)), "the result is not finite")
    r0, r1 = np.linalg.norm(b - A @ x0) / nb, np.linalg.norm(b - A @ x) / nb
    big = max(np.linalg.norm(x), np.linalg.norm(x0), np.linalg.norm(xs))
    fl = 2e-13 * c["N"] * nA * big / nb + 1e-14
    require(r1 <= r0 * (1 + 1e-9) + fl, "the relative residual grew from %r to %r", r0, r1)
    require(0 <= it <= c["it"], "%d iterations reported, %d allowed", it, c["it"])
    require(abs(cgres - r1) <= 1e-6 * r1 + fl * 10, "reported relative residual %r, actual "
            "%r", cgres, r1)
    if it < c["it"]:
        require(cgres < c["tol"] or r1 < c["tol"], "stopped after %d of %d iterations at "
                "relative residual %r, tolerance %r", it, c["it"], cgres, c["tol"])
    # convergence theory: ||e_k||_A <= 2 q^k ||e_0||_A
    m = np.ones(c["N"]) if mi is None else mi
    S = np.sqrt(m)[:, None] * A * np.sqrt(m)[None, :]
    ev = np.linalg.eigvalsh(S)
    kp = ev[-1] / max(ev[0], 1e-300)
    q = (np.sqrt(kp) - 1) / (np.sqrt(kp) + 1)
    e0 = x0 - xs
    eA = np.sqrt(max(e0 @ A @ e0, 0))
    bound = 2 * q ** c["it"] * eA * np.sqrt(nA) / nb
    require(r1 < c["tol"] or r1 <= bound * (1 + 1e-6) + fl * (10 + kp),
            "relative residual %r after %d iterations; conjugate gradients guarantee %r",
            r1, it, bound)
    nt = r0 > 10 * fl and c["it"] > 0
    lb = [c["pre"], c["x0"], "tol" if it < c["it"] else "limit"]
    # short runs: the iterates are determined; compare with textbook CG
    if c["it"] <= 6 and kp <= 100 and r0 > 1e3 * fl:
        h = reference(A, b, x0, mi, c["tol"], c["it"])
        if min(h) > max(1e4 * fl, 1e-5 * max(h)) and not any(
                abs(v - c["tol"]) < 1e-2 * c["tol"] for v in h):
            lb.append("vs textbook")
            require(abs(r1 - min(h)) <= 1e-3 * min(h), "best relative residual of %d "
                    "textbook iterations is %r, got %r", len(h) - 1, min(h), r1)
            require(it == min(len(h) - 1, c["it"]), "textbook CG stops after %d "
                    "iterations, got %d", len(h) - 1, it)
    return dict(nt=nt, labels=lb)


@st.composite
def huge(draw):
    d = draw(cases(40, 3.))
    d.update(N=draw(st.integers(300, 1600)), spec=draw(st.sampled_from(["diag", "ident",
                                                                       "tri"])))
    return d


@st.composite
def plateau(draw):
    return dict(N=draw(st.integers(2, 30)), s=draw(st.integers(0, 10 ** 6)), kap=1.,
                spec="plateau", t=draw(st.floats(7, 60)), dl=draw(st.floats(-5, -1.5)),
                sg=draw(st.sampled_from([-1, 1])), sa=draw(st.sampled_from([0., -4., 4.])),
                sb=draw(st.sampled_from([0., -6., 6.])), b="ones", x0="zero",
                pre=draw(st.sampled_from(["none", "unit", "tiny", "huge"])), tol=1e-8, it=1,
                vb=0)


@st.composite
def long_runs(draw):
    d = draw(cases(40, 3.))
    d.update(N=draw(st.integers(50, 200)), kap=draw(st.floats(1.5, 3.5)),
             spec=draw(st.sampled_from(["log", "lin", "lin", "tri", "lap"])),
             x0=draw(st.sampled_from(["zero", "rand", "far"])),
             tol=draw(st.sampled_from([1e-6, 1e-3, 1e-9, 0.])),
             it=draw(st.integers(7, 130)))
    return d


def check_long(c, L):
    """runs of many iterations, where the textbook history is not decided by rounding"""
    A, b, x0, mi, xs = system(c)
    hs = [reference(A, b, x0, mi, c["tol"], c["it"])]
    rng = np.random.default_rng(c["s"] + 1)
    for _ in range(3):
        hs.append(reference(A, b, x0, mi, c["tol"], c["it"], rng))
    h = np.array(hs[0])
    if any(len(v) != len(h) for v in hs) or any(
            np.max(np.abs(np.array(v) / h - 1)) > 1e-4 for v in hs) or np.any(
            np.abs(h - c["tol"]) < 1e-2 * c["tol"]) or h.min() < 1e-6 * h.max():
        return False
    x, out = call(c, L, A, b, x0, mi)
    r1 = np.linalg.norm(b - A @ x) / np.linalg.norm(b)
    require(abs(r1 - h.min()) <= 1e-2 * h.min(), "best relative residual of %d textbook "
            "iterations is %r, got %r", len(h) - 1, h.min(), r1)
    require(out[1] == len(h) - 1, "textbook CG stops after %d iterations, got %d",
            len(h) - 1, out[1])
    return dict(nt=True, labels=["long vs textbook", "over 32" if len(h) > 33 else "short"])


TESTS = [Test("cglong", long_runs(), check_long, variant="wrap", quick=3000,
              thorough=6 * 10 ** 4, shards=3, cap=30, cap_thorough=400, chunk=50),
         Test("cgplateau", plateau(), check, variant="wrap", quick=3000,
              thorough=5 * 10 ** 4, shards=1, cap=20, cap_thorough=100, chunk=100),
         Test("cghuge", huge(), check, variant="wrap", quick=300, thorough=3000, shards=1,
              cap=30, cap_thorough=300, chunk=10),
         Test("cg", cases(), check, variant="wrap", quick=100000, thorough=2 * 10 ** 6,
              shards=7, cap=30, cap_thorough=600, chunk=200),
         Test("cgbig", cases(300, 3.), check, variant="wrap", quick=2000,
              thorough=3 * 10 ** 4, shards=1, cap=30, cap_thorough=300, chunk=30)]
