"""C06: the image-reconstruction entry point returns an image that explains the samples
and has (nearly) the smallest DCT l1 norm among those that do."""
import numpy as np
from hypothesis import strategies as st

from props.l1common import dual_gap, opts, sloppy
from vf import gen, lib, ref
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = (image shape, 1-D or 2-D transform, sampled pixels, sample values incl. "
        "all-zero, sample array at any 8-byte alignment, radius from far below to above "
        "||b||, solver options); non-trivial when the samples are not all zero and the "
        "image is larger than one pixel")
ASSUMPTIONS = ["pixel indices are distinct",
               "optimality is asked of well scaled samples (sum of |DCT coefficients| of "
               "the zero-filled image at most 2*pixels+1) and tight solver tolerances"]


@st.composite
def cases(draw, o, mx=90):
    r, c = draw(gen.image(max(14, int(mx ** .5)), mx, 1))
    return dict(r=r, c=c, idx=draw(gen.idx()), o=draw(o),
                mode=draw(st.sampled_from([1, 2])), s=draw(st.integers(0, 10 ** 6)),
                sig=draw(st.sampled_from(["sparse", "sparse", "smooth", "noise", "zero",
                                          "const", "unit"])),
                sc=draw(st.floats(-2, .3)),
                er=draw(st.one_of(st.floats(-3, -.1), st.sampled_from([.1, 1.]))),
                off=draw(st.integers(0, 7)))


def samples(c, R, iv):
    r = np.random.default_rng(c["s"])
    m = R.mt
    k = c["sig"]
    if k == "sparse":
        eta = r.standard_normal(m) * (r.random(m) < .25)
        img = R.ref("Mx", eta)
    elif k == "smooth":
        t = np.arange(m)
        img = np.sin(t / (3 + r.random() * 10)) + .2
    elif k == "noise":
        img = r.standard_normal(m)
    elif k == "const":
        img = np.full(m, 1.0)
    elif k == "unit":
        img = np.zeros(m)
        img[iv[r.integers(0, len(iv))]] = 1.
    else:
        img = np.zeros(m)
    b = (img * 10.0 ** c["sc"])[iv]
    if k != "zero" and np.linalg.norm(b) < 1e-3 * 10.0 ** c["sc"]:
        b = b + 10.0 ** c["sc"]
    return b


def run(c, L):
    m = c["r"] * c["c"]
    iv = gen.mkidx(c["idx"], m)
    R = ref.Ops(lib.DCT, c["r"], c["c"], iv, c["mode"])
    b = samples(c, R, iv)
    nb = np.linalg.norm(b)
    eps = 10.0 ** c["er"] * nb if nb > 0 else .1
    o = c["o"]
    I = lib.ibuf(iv, "pix_idx")
    B = Buf(b, off=c["off"], name="b")
    X = Buf(m, name="x_out")
    res = Buf(np.array([-1., -1., -1., -1.]))
    O = lib.l1qc_opts(epsilon=eps, **dict(o, dct_mode=c["mode"]))
    L.sh_log_replace(2)
    try:
        s = L.sh_l1qc_dct(c["r"], c["c"], X.p, len(iv), B.p, I.p, O.p, res.p)
    finally:
        L.sh_log_replace(0)
    require(s == 0 and res.a[3] == 0, "status %d / %d for a valid problem", s, res.a[3])
    X.guards()
    B.unchanged("b")
    I.unchanged("pix_idx")
    x = X.a
    require(np.all(np.isfinite(x)), "the image is not finite")
    rn = np.linalg.norm(x[iv] - b)
    require(rn <= eps * (1 + 1e-9) + 1e-13 * nb, "the image misses the samples by %r, "
            "epsilon is %r", rn, eps)
    eta = R.ref("Mty", x)
    l1 = np.abs(eta).sum()
    require(abs(l1 - res.a[0]) <= 1e-11 * (l1 + nb), "reported l1 norm %r, that of the "
            "image's DCT is %r", res.a[0], l1)
    require(res.a[1] >= 0 and res.a[2] >= 0, "negative iteration counts")
    require(res.a[2] <= res.a[1] * o["cg_maxiter"], "more CG iterations than allowed")
    return R, b, eps, eta, nb


def labels(c, R):
    return ["mode%d" % c["mode"], c["sig"], "row" if c["r"] == 1 else
            "col" if c["c"] == 1 else "square" if c["r"] == c["c"] else "rect",
            "eps>b" if c["er"] > 0 else "eps<b", "off%d" % c["off"]]


def check_opt(c, L):
    R, b, eps, eta, nb = run(c, L)
    m = R.mt
    o = c["o"]
    if nb == 0:
        require(np.abs(eta).sum() == 0, "all-zero samples did not give the zero image")
        return False
    l1s = np.abs(R.ref("Aty", b)).sum()
    if l1s <= 2 * m + 1 and not o["lbiter"]:
        gap, p = dual_gap(R, b, eps, eta)
        lim = max(o["mu"] * o["lbtol"], l1s if l1s <= o["lbtol"] else 0)
        lim = lim * (1 + 1e-6) + 1e-9 * (p + eps)
        require(gap <= lim, "DCT l1 norm %r is %r above a certified lower bound; "
                "mu*lbtol allows %r", p, gap, lim)
        if c["er"] > 0:
            require(p <= lim, "the zero image is feasible; l1 norm %r, allowed %r", p, lim)
    return dict(nt=m > 1, labels=labels(c, R))


def check_sloppy(c, L):
    R, b, eps, eta, nb = run(c, L)
    return dict(nt=nb > 0 and R.mt > 1, labels=labels(c, R))


TESTS = [
    Test("optimal", cases(opts()), check_opt, variant="wrap", quick=40000,
         thorough=10 ** 6, shards=5, cap=35, cap_thorough=700, chunk=50),
    Test("sloppy", cases(sloppy(), 400), check_sloppy, variant="wrap", quick=20000,
         thorough=4 * 10 ** 5, shards=2, cap=35, cap_thorough=400, chunk=50),
    Test("large", cases(sloppy(), 5000), check_sloppy, variant="wrap", quick=1500,
         thorough=3 * 10 ** 4, shards=2, cap=35, cap_thorough=400, chunk=20),
    # the shipped planning mode too
    Test("asbuilt", cases(sloppy(), 40), check_sloppy, variant="plain", quick=1500,
         thorough=10 ** 4, shards=1, cap=35, cap_thorough=200, chunk=30),
]
