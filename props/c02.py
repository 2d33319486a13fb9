"""C02: dense-matrix and DCT+TV operator sets equal their definition, forward and adjoint
are transposes, and norm_W bounds ||W||."""
import numpy as np
from hypothesis import strategies as st

from props.opcheck import build_case, check_dims, check_op
from vf import gen, lib
from vf.engine import Test
from vf.lib import require

LEVEL = "exploration"
RULE = ("case = operator family (dense matrix / DCT+TV analysis / DCT+TV synthesis / "
        "plain DCT), dimensions, weights, index set and two vectors; non-trivial when "
        "both vectors are non-zero, there are at least 4 unknowns, and (for DCT+TV) at "
        "least one TV weight is positive")
ASSUMPTIONS = ["in synthesis mode with TV the W operators (identity on an overcomplete "
               "coefficient vector) are not used and not checked",
               "TV weights > 0 only with at least 3 rows and 3 columns (the library "
               "rejects the rest)"]


@st.composite
def tv_case(draw):
    av, ah = draw(gen.alpha_tv), draw(gen.alpha_tv)
    if draw(st.integers(0, 3)) == 0:
        av = draw(st.floats(1e-4, 1e2))
    if draw(st.integers(0, 3)) == 0:
        ah = draw(st.floats(1e-4, 1e2))
    r, c = draw(gen.image(30, 900, 3 if av > 0 or ah > 0 else 1, rare_big=150))
    return dict(kind=lib.TV, mrow=r, mcol=c, av=av, ah=ah,
                dct_mode=draw(st.sampled_from([1, 2])), bp=draw(st.sampled_from([1, 2])),
                idx=draw(gen.idx()), x=draw(gen.vec(emin=-4, emax=4)),
                y=draw(gen.vec(emin=-4, emax=4)))


@st.composite
def tv_long(draw):
    """images of several thousand pixels"""
    d = draw(tv_case())
    mn = 3 if d["av"] > 0 or d["ah"] > 0 else 1
    n = draw(st.one_of(st.integers(900, 12000), st.sampled_from([1024, 4096, 4099, 16384])))
    a = draw(st.integers(mn, 130))
    r, c = a, max(mn, n // a)
    d["mrow"], d["mcol"] = (r, c) if draw(st.booleans()) else (c, r)
    return d


@st.composite
def mat_case(draw):
    n = draw(gen.size(64))
    m = draw(gen.size(64))
    k = draw(st.integers(0, 39))
    if k < 3:
        m = draw(st.integers(64, 1500))
    elif k < 5:
        n = draw(st.integers(64, 1500))
    elif k == 5:
        n, m = draw(st.integers(100, 600)), draw(st.integers(100, 600))
    return dict(kind=lib.MAT, n=n, m=m, A=draw(gen.vec(emin=-3, emax=3)),
                x=draw(gen.vec(emin=-4, emax=4)), y=draw(gen.vec(emin=-4, emax=4)))


def inner_check(L, slot, R, f, ft, x, y):
    ni, no = R.sizes()[f]
    x, y = x[:ni], y[:no]
    fx = L.apply(slot, f, x, no)
    fty = L.apply(slot, ft, y, ni)
    a, b = float(np.dot(fx, y)), float(np.dot(x, fty))
    tol = 1e-12 * R.amp(f) * np.linalg.norm(x) * np.linalg.norm(y) + 1e-280
    require(abs(a - b) <= tol, "<%s x, y> = %r but <x, %s y> = %r (tolerance %g)", f, a,
            ft, b, tol)


def check(c, L):
    R, keep = build_case(L, 0, c)
    try:
        check_dims(L, 0, R)
        big = max(max(v) for v in R.sizes().values())
        x = gen.mkvec(c["x"], big)
        y = gen.mkvec(c["y"], big)
        ops = list(R.sizes())
        for op in ops:
            check_op(L, 0, R, op, x)
        for op in ops[::-1]:
            check_op(L, 0, R, op, y, " (second vector)")
        for f, ft in (("Ax", "Aty"), ("Mx", "Mty"), ("Wz", "Wtx"), ("Rx", "Rty")):
            if f in ops:
                inner_check(L, 0, R, f, ft, x, y)
        # AtAx is the composition of the two applied operators
        m, n = R.m, R.n
        ax = L.apply(0, "Ax", x[:m], n)
        atax = L.apply(0, "Aty", ax, m)
        d = L.apply(0, "AtAx", x[:m], m)
        s = R.amp("AtAx") * np.linalg.norm(x[:m])
        require(np.max(np.abs(d - atax)) <= 1e-12 * s + 1e-280,
                "AtAx(x) differs from Aty(Ax(x)) by %g", np.max(np.abs(d - atax)))
        nw = L.sh_normW(0)
        if c["kind"] == lib.TV and "Wtx" in ops:
            # norm_W must bound ||W||: try x, y and a few power iterations from them
            for v in (x[:m].copy(), y[:m].copy(),
                      np.where(np.add.outer(np.arange(R.mrow), np.arange(R.mcol)) % 2,
                               1., -1.).ravel()):
                for _ in range(12):
                    nv = np.linalg.norm(v)
                    if nv == 0:
                        break
                    v = v / nv
                    w = L.apply(0, "Wtx", v, R.p)
                    rat = np.linalg.norm(w)
                    require(rat <= nw * (1 + 1e-12),
                            "||W'x|| = %r ||x|| exceeds norm_W = %r", rat, nw)
                    v = L.apply(0, "Wz", w, m)
            if c["bp"] == lib.ANALYSIS:
                up = np.sqrt(1 + 4 * c["av"] ** 2 + 4 * c["ah"] ** 2)
                require(nw <= up * (1 + 1e-12),
                        "norm_W = %r exceeds the bound %r on ||W||", nw, up)
        keep.unchanged("index array / matrix")
    finally:
        L.sh_destroy(0)
    nt = np.any(x[:m]) and np.any(y[:n]) and m >= 4 and (
        c["kind"] != lib.TV or c["av"] > 0 or c["ah"] > 0)
    lab = ["mat"] if c["kind"] == lib.MAT else [
        "bp%d" % c["bp"], "av%d ah%d" % (c["av"] > 0, c["ah"] > 0), "mode%d" % c["dct_mode"]]
    return dict(nt=nt, labels=lab)


TESTS = [
    Test("dcttvlong", tv_long(), check, variant="wrap", quick=1000, thorough=3 * 10 ** 4,
         shards=2, cap=25, cap_thorough=300, chunk=20),
    Test("dcttv", tv_case(), check, variant="wrap", quick=40000, thorough=10 ** 6, shards=6,
         cap=25, cap_thorough=500),
    Test("matrix", mat_case(), check, variant="wrap", quick=20000, thorough=3 * 10 ** 5,
         shards=2, cap=25, cap_thorough=300),
]
