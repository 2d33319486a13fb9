"""C11: the image difference operators equal their definition on images of every shape."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, lib, ref
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = (image shape from 1xN over thin to large, weight of any sign, image, "
        "array alignment); all six operators are applied; non-trivial when the image is "
        "not constant and the weight not zero")
ASSUMPTIONS = ["the transposed and second-difference operators are asked for at least two "
               "pixels along the difference direction"]


@st.composite
def cases(draw, side=40, tot=1600, big=None):
    n, m = draw(gen.image(side, tot, 1, rare_big=big))
    return dict(n=n, m=m, a=draw(st.one_of(st.sampled_from([1., -1., .5, 3., 0., 1e-3]),
                                           st.floats(-100, 100))),
                x=draw(gen.vec(emin=-8, emax=8)), y=draw(gen.vec()),
                off=draw(st.integers(0, 7)), off2=draw(st.integers(0, 7)))


def check(c, L):
    n, m, a = c["n"], c["m"], c["a"]
    x, y = gen.mkvec(c["x"], n * m), gen.mkvec(c["y"], n * m)
    out = {}

    def go(name, v, want, scale):
        V, O = Buf(v, off=c["off"], name="input"), Buf(n * m, off=c["off2"], name="output")
        getattr(L, "l1c_" + name)(n, m, a, V.p, O.p)
        O.guards()
        V.unchanged("the input of %s" % name)
        tol = 2e-15 * scale + 1e-300
        e = np.abs(O.a - want)
        i = int(np.argmax(e - tol)) if e.size else 0
        require(np.all(e <= tol), "%s on %dx%d: element %d is %r, expected %r", name, n, m,
                i, O.a[i].item(), want[i].item())
        out[name] = O.a.copy()

    X = np.abs(x)
    D = dict(Dx=ref.Dx, Dy=ref.Dy, DxT=ref.DxT, DyT=ref.DyT)

    def nb(v, nm):
        V = v.reshape(n, m)
        o = 2 * V
        if nm[1] == "x":
            o[:, 1:] += V[:, :-1]
            o[:, :-1] += V[:, 1:]
        else:
            o[1:] += V[:-1]
            o[:-1] += V[1:]
        return o.ravel()

    for nm in ("Dx", "Dy", "DyT", "DxT"):
        if nm == "DxT" and m < 2 or nm == "DyT" and n < 2:
            continue
        go(nm, x, D[nm](n, m, a, x), abs(a) * nb(X.copy(), nm))
    if m >= 2:
        go("DxTDx", x, ref.DxT(n, m, a, ref.Dx(n, m, a, x)), 2 * a * a * nb(X.copy(), "Dx"))
    if n >= 2:
        go("DyTDy", x, ref.DyT(n, m, a, ref.Dy(n, m, a, x)), 2 * a * a * nb(X.copy(), "Dy"))
    return dict(nt=a != 0 and np.ptp(x) > 0,
                labels=["row" if n == 1 else "col" if m == 1 else
                        "thin" if min(n, m) == 2 else "image"])


@st.composite
def long_cases(draw):
    d = draw(cases())
    k = draw(st.sampled_from(["row", "col", "wide", "tall", "sq"]))
    a, b = draw(st.integers(1, 5)), draw(st.integers(2000, 40000))
    d["n"], d["m"] = dict(row=(1, b), col=(b, 1), wide=(a, b), tall=(b, a),
                          sq=(100 + b // 100, 90 + b // 80))[k]
    return d


TESTS = [Test("difflong", long_cases(), check, variant="wrap", quick=1500,
              thorough=4 * 10 ** 4, shards=2, cap=25, cap_thorough=200),
         Test("diff", cases(big=300), check, variant="wrap", quick=100000,
              thorough=2 * 10 ** 6, shards=5, cap=25, cap_thorough=300, chunk=200),
         Test("diffmt", cases(60, 3600, 400), check, variant="wrap", quick=5000,
              thorough=10 ** 5, shards=1, threads=3, cap=25, cap_thorough=200)]
