"""C01: the sub-sampled DCT operator sets compute exactly E*M and friends."""
import numpy as np
from hypothesis import strategies as st

from props.opcheck import build_case, check_dims, check_op
from vf import gen, lib
from vf.engine import Test
from vf.lib import require

LEVEL = "exploration"
RULE = ("case = (entry point, rows, cols, dct mode, index set, input vectors), drawn from "
        "weighted strategies incl. single row/column, square, skewed and block-size "
        "neighbouring shapes and unsorted index sets; non-trivial when the image has at "
        "least 4 pixels, the index set is not the full identity, and the input is "
        "non-zero")
ASSUMPTIONS = ["scipy.fft (pocketfft) orthonormal DCT is the mathematical reference",
               "one DCT operator set is live at a time (documented single-instance design)",
               "the wrap build replaces FFTW_PATIENT by FFTW_ESTIMATE (planning effort "
               "only); the plain build runs the planner as shipped"]

ALLOPS = ["Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty"]


def strat(mxside, mxtot, big):
    @st.composite
    def s(draw):
        kind = draw(st.sampled_from([lib.DCT, lib.DCT1, lib.DCT2]))
        if kind == lib.DCT2:
            r, c = draw(gen.image(mxside, mxtot, 2, rare_big=big))
        else:
            r, c = draw(gen.image(mxside, mxtot, 1, rare_big=big))
        mode = draw(st.sampled_from([1, 2])) if kind == lib.DCT else (
            1 if kind == lib.DCT1 else 2)
        return dict(kind=kind, mrow=r, mcol=c, dct_mode=mode, idx=draw(gen.idx()),
                    x=draw(gen.vec()), ops=draw(st.permutations(ALLOPS)))
    return s()


def check(c, L):
    # PATIENT planning of long 1-D transforms takes seconds
    oned = c["kind"] == lib.DCT1 or (c["kind"] == lib.DCT and (
        c["dct_mode"] == 1 or c["mrow"] == 1 or c["mcol"] == 1))
    if L.fault is None and oned and c["mrow"] * c["mcol"] > 160:
        return False
    live0 = L.ft_live() if L.fault else 0
    R, keep = build_case(L, 0, c)
    try:
        check_dims(L, 0, R)
        require(L.sh_normW(0) == 1.0, "norm_W is %r, expected 1", L.sh_normW(0))
        x = gen.mkvec(c["x"], R.mt)
        for op in c["ops"]:
            check_op(L, 0, R, op, x)
        # the inverse pair really inverts
        y = L.apply(0, "Mx", x, R.mt)
        z = L.apply(0, "Mty", y, R.mt)
        e = np.max(np.abs(z - x)) if R.mt else 0
        require(e <= 1e-12 * np.linalg.norm(x) + 1e-290,
                "Mty(Mx(x)) differs from x by %g", e)
        keep.unchanged("index array")
    finally:
        L.sh_destroy(0)
    if L.fault:
        require(L.ft_live() == live0, "destroy left %d blocks allocated",
                L.ft_live() - live0)
    lab = ["%s" % ["dct", "dct1", "dct2"][c["kind"]], "1d" if oned else "2d",
           "idx=" + c["idx"]["k"]]
    return dict(nt=R.mt >= 4 and np.any(x) and not (
        R.n == R.mt and np.array_equal(R.idx, np.arange(R.mt))), labels=lab)


@st.composite
def long_cases(draw):
    d = draw(strat(20, 100, 30))
    d["kind"] = draw(st.sampled_from([lib.DCT, lib.DCT1, lib.DCT2]))
    n = draw(st.one_of(st.integers(1600, 20000), st.sampled_from([4096, 8192, 16384, 9973,
                                                                 10007, 16385, 65536])))
    k = draw(st.sampled_from(["row", "col", "wide", "tall"]))
    a = draw(st.integers(2, 9))
    if d["kind"] == lib.DCT2 and k in ("row", "col"):
        k = "wide"
    d["mrow"], d["mcol"] = dict(row=(1, n), col=(n, 1), wide=(a, n // a), tall=(n // a, a))[k]
    d["dct_mode"] = {lib.DCT1: 1, lib.DCT2: 2}.get(d["kind"], d["dct_mode"])
    return d


TESTS = [
    Test("long", long_cases(), check, variant="wrap", quick=600, thorough=2 * 10 ** 4,
         shards=2, cap=25, cap_thorough=300, chunk=20),
    Test("ops", strat(40, 1600, 300), check, variant="wrap", quick=60000, thorough=10 ** 6,
         shards=6, cap=25, cap_thorough=500),
    Test("patient", strat(24, 400, 48), check, variant="plain", quick=6000, thorough=10 ** 5,
         shards=2, cap=25, cap_thorough=500),
]
