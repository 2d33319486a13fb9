"""Strategies for JSON-able case descriptions and their realisation."""
import numpy as np
from hypothesis import strategies as st

VKINDS = ["ints", "normal", "unit", "const", "ramp", "alt", "sparse", "wide", "zeros",
          "last", "neg", "pos"]


def vec(kinds=None, emin=-6, emax=6):
    """Description of a vector: pattern, seed, decimal exponent of its scale."""
    return st.fixed_dictionaries(dict(
        k=st.sampled_from(kinds or VKINDS),
        s=st.integers(0, 10 ** 6),
        e=st.one_of(st.just(0), st.integers(emin, emax))))


def mkvec(d, n):
    r = np.random.default_rng(d["s"])
    k = d["k"]
    if k == "ints":
        v = r.integers(-4, 5, n).astype(float)
    elif k == "normal":
        v = r.standard_normal(n)
    elif k == "unit":
        v = np.zeros(n)
        if n:
            v[r.integers(0, n)] = 1.0
    elif k == "last":
        v = np.zeros(n)
        if n:
            v[n - 1] = 1.0
    elif k == "const":
        v = np.full(n, float(r.integers(-3, 4)) + 0.5)
    elif k == "ramp":
        v = np.arange(n, dtype=float) - r.integers(0, n + 1)
    elif k == "alt":
        v = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * (1 + r.integers(0, 3))
    elif k == "sparse":
        v = r.standard_normal(n) * (r.random(n) < 0.2)
    elif k == "wide":
        v = r.standard_normal(n) * 10.0 ** r.integers(-5, 6, n)
    elif k == "zeros":
        v = np.zeros(n)
    elif k == "neg":
        v = -r.random(n) - 0.1
    elif k == "pos":
        v = r.random(n) + 0.1
    else:
        raise ValueError(k)
    return v * 10.0 ** d["e"]


SPECIAL = sorted({p + o for p in (4, 8, 16, 32, 64, 128, 256, 512, 1024)
                  for o in (-1, 0, 1)}
                 | {1, 2, 3, 5, 6, 11, 13, 24, 37, 48, 63, 96, 97, 100, 127, 251, 384,
                    509, 1000})


def size(mx, mn=1, rare_big=None):
    """Lengths: small ones, the neighbourhood of block sizes, anything up to mx, and
    (rarely) something big."""
    sp = [x for x in SPECIAL if mn <= x <= mx] or [mn]
    opts = [st.integers(mn, min(mx, max(mn, 20))), st.sampled_from(sp),
            st.integers(mn, mx)]
    if rare_big:
        opts = opts * 6 + [st.integers(mx, rare_big)]
    return st.one_of(*opts)


@st.composite
def image(draw, mxside=40, mxtot=1600, mn=1, rare_big=None):
    """(mrow, mcol) incl. skewed, square, single row/column"""
    kind = draw(st.sampled_from(["free", "square", "row", "col", "skew", "skewT"]
                                + (["big"] if rare_big else [])))
    if kind == "big" and draw(st.integers(0, 5)) != 0:
        kind = "free"
    if kind == "free":
        r = draw(st.integers(mn, mxside))
        c = draw(st.integers(mn, max(mn, min(mxside, mxtot // r))))
    elif kind == "square":
        r = c = draw(st.integers(mn, int(mxtot ** .5)))
    elif kind == "row":
        r, c = mn, draw(size(mxtot // mn, mn))
    elif kind == "col":
        r, c = draw(size(mxtot // mn, mn)), mn
    elif kind == "skew":
        r = draw(st.integers(mn, mn + 3))
        c = draw(st.integers(mn, max(mn, mxtot // r)))
    elif kind == "skewT":
        c = draw(st.integers(mn, mn + 3))
        r = draw(st.integers(mn, max(mn, mxtot // c)))
    else:
        r = draw(st.integers(mn, rare_big))
        c = draw(st.integers(mn, rare_big))
    return r, c


IKINDS = ["first", "rand", "sorted", "all", "perm", "last", "one", "stride", "block",
          "reversed"]


def idx():
    return st.fixed_dictionaries(dict(k=st.sampled_from(IKINDS), s=st.integers(0, 10 ** 6),
                                      f=st.sampled_from([.05, .2, .35, .5, .75, .95, 1.])))


def mkidx(d, m, nmin=1):
    r = np.random.default_rng(d["s"])
    n = int(min(m, max(nmin, round(d["f"] * m))))
    k = d["k"]
    if k == "first":
        v = np.arange(n)
    elif k == "last":
        v = np.arange(m - n, m)
    elif k == "rand":
        v = r.permutation(m)[:n]
    elif k == "sorted":
        v = np.sort(r.permutation(m)[:n])
    elif k == "all":
        v = np.arange(m)
    elif k == "perm":
        v = r.permutation(m)
    elif k == "one":
        v = np.array(r.permutation(m)[:nmin])
    elif k == "stride":
        step = max(1, int(1 / d["f"]))
        v = np.arange(0, m, step)
        if len(v) < nmin:
            v = np.arange(nmin)
    elif k == "block":
        a = int(r.integers(0, m - n + 1))
        v = np.arange(a, a + n)
    elif k == "reversed":
        v = np.sort(r.permutation(m)[:n])[::-1]
    return np.ascontiguousarray(v, dtype=np.int32)


alpha_tv = st.sampled_from([0.0, 0.5, 1.0, 0.1, 2.5, 1e-3, 7.0, 30.0])
