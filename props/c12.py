"""C12: the vector kernels compute their formula for every length."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = (kernel, length incl. 0, the neighbourhood of the SIMD width and of powers "
        "of two up to several thousand, vectors of mixed sign and magnitude, scalars); "
        "non-trivial when the length is at least 1 and the data not all zero")
ASSUMPTIONS = ["vectors are aligned as the library's allocator aligns them, except for the "
               "kernels that document no alignment",
               "results may differ from the exact value by a few units in the last place "
               "per term (any summation order is allowed)"]

K = ["daxpy_z", "daxpby_z", "daxpby", "dxmuly_z", "init_vec", "dsum", "dnorm1", "dlogsum",
     "dnrm2_err", "dnrm2_rel_err", "max_vec", "abs_vec", "vcl_sum", "vcl_logsum",
     "vcl_dxMy_pz", "scalars"]
sc = st.one_of(st.sampled_from([0., 1., -1., 2.5, -1e-3, 1e6]), st.floats(-1e3, 1e3))


@st.composite
def cases(draw, mx, big):
    k = draw(st.sampled_from(K))
    return dict(k=k, N=draw(st.one_of(st.integers(0, 40), gen.size(mx, 1, big))),
                x=draw(gen.vec()), y=draw(gen.vec()), z=draw(gen.vec()), a=draw(sc),
                b=draw(sc), off=draw(st.integers(0, 7)),
                neg=draw(st.integers(0, 10 ** 6)),
                how=draw(st.sampled_from(["pos", "pos", "pos", "negalpha", "hasneg",
                                          "haszero", "negs", "negs", "extreme"])))


def elem(o, want, scale, k, N):
    tol = 4e-16 * scale + 1e-300
    e = np.abs(o - want)
    bad = ~(e <= tol)
    if np.any(bad):
        i = int(np.nonzero(bad)[0][0])
        require(False, "%s, length %d: element %d is %r, expected %r", k, N, i, o[i].item(),
                want[i].item())


def check(c, L):
    k, N, a, b = c["k"], c["N"], c["a"], c["b"]
    x, y, z = [gen.mkvec(c[q], N) for q in "xyz"]
    nt = N > 0 and (np.any(x) or k == "init_vec")
    lb = [k]
    ld = np.longdouble
    if k == "scalars":
        i, j = c["N"] - 20, int(c["neg"] % 41) - 20
        require(L.sh_imin(i, j) == min(i, j) and L.sh_imax(i, j) == max(i, j),
                "integer min/max of %d, %d", i, j)
        require(L.sh_min(a, b) == min(a, b) and L.sh_max(a, b) == max(a, b),
                "min/max of %r, %r", a, b)
        return dict(nt=i != j, labels=lb)
    X, Y, Z = Buf(x, name="x"), Buf(y, name="y"), Buf(z, name="z")
    keep = [X, Y]
    ax, ay = np.abs(x), np.abs(y)
    if k == "daxpy_z":
        L.l1c_daxpy_z(N, a, X.p, Y.p, Z.p)
        elem(Z.a, a * x + y, abs(a) * ax + ay, k, N)
    elif k == "daxpby_z":
        L.l1c_daxpby_z(N, a, X.p, b, Y.p, Z.p)
        elem(Z.a, a * x + b * y, abs(a) * ax + abs(b) * ay, k, N)
    elif k == "daxpby":
        keep = [X]
        L.sh_daxpby(N, a, X.p, b, Y.p)
        elem(Y.a, a * x + b * y, abs(a) * ax + abs(b) * ay, k, N)
    elif k == "dxmuly_z":
        L.l1c_dxmuly_z(N, X.p, Y.p, Z.p)
        elem(Z.a, x * y, np.abs(x * y), k, N)
    elif k == "vcl_dxMy_pz":
        L.vcl_dxMy_pz(N, X.p, Y.p, Z.p)
        elem(Z.a, x * y + z, np.abs(x * y) + np.abs(z), k, N)
    elif k == "init_vec":
        L.l1c_init_vec(N, Z.p, a)
        require(np.all(Z.a == a), "init_vec, length %d: not every element is %r", N, a)
    elif k in ("dsum", "vcl_sum"):
        V = Buf(x, off=c["off"] if k == "dsum" else 0, name="x")
        keep.append(V)
        v = (L.l1c_dsum if k == "dsum" else L.vcl_sum)(N, V.p)
        w = float(np.sum(x.astype(ld)))
        require(abs(v - w) <= 2e-16 * (N + 4) * ax.sum() + 1e-300, "%s of %d values is %r, "
                "exactly %r", k, N, v, w)
    elif k == "dnorm1":
        V = Buf(x, off=c["off"], name="x")
        keep.append(V)
        v, w = L.l1c_dnorm1(N, V.p), float(np.sum(ax.astype(ld)))
        require(abs(v - w) <= 2e-16 * (N + 4) * w + 1e-300, "dnorm1 of %d values is %r, "
                "exactly %r", N, v, w)
    elif k in ("dlogsum", "vcl_logsum"):
        x = ax + 1e-5 * 10.0 ** c["x"]["e"]
        al = max(abs(a), 1e-6)
        how = c["how"]
        p = c["neg"] % N if N else 0
        if how == "negalpha":
            al, x = -al, -x
        elif how == "hasneg" and N:
            x[p] = -x[p]
        elif how == "haszero" and N:
            x[p] = 0.
        elif how == "negs" and N:
            # several negative arguments, also side by side: their signs must not cancel
            r = np.random.default_rng(c["neg"])
            st_ = [1, 1, 2, 4][c["neg"] % 4]
            q = np.unique((p + st_ * np.arange(r.integers(2, 5))) % N)
            x[q] = -x[q]
        elif how == "extreme":
            # no product of two arguments is representable
            r = np.random.default_rng(c["neg"])
            x = 10.0 ** r.uniform(*[(-290, -170), (170, 290), (-290, 290)][c["neg"] % 3], N)
        lb.append(how)
        V = Buf(x, off=c["off"] if k == "dlogsum" else 0, name="x")
        keep.append(V)
        v = (L.l1c_dlogsum if k == "dlogsum" else L.vcl_logsum)(N, al, V.p)
        if N and how in ("hasneg", "negs"):
            require(np.isnan(v), "%s with a negative argument at %d of %d is %r, not NaN",
                    k, p, N, v)
        elif N and how == "haszero":
            require(v == -np.inf, "%s with a zero argument at %d of %d is %r, not -inf", k,
                    p, N, v)
        else:
            t = np.log((al * x).astype(ld))
            w = float(np.sum(t))
            require(abs(v - w) <= 4e-16 * (N + 8) * (float(np.sum(np.abs(t))) + N),
                    "%s of %d values is %r, exactly %r", k, N, v, w)
    elif k in ("dnrm2_err", "dnrm2_rel_err"):
        if k == "dnrm2_rel_err" and not np.any(y):
            return False
        v = (L.l1c_dnrm2_err if k == "dnrm2_err" else L.l1c_dnrm2_rel_err)(N, X.p, Y.p)
        w = float(np.sqrt(np.sum((x.astype(ld) - y) ** 2)))
        if k == "dnrm2_rel_err":
            w /= float(np.sqrt(np.sum(y.astype(ld) ** 2)))
        require(abs(v - w) <= 4e-16 * (N + 4) * w + 1e-290, "%s of %d values is %r, exactly "
                "%r", k, N, v, w)
    elif k == "max_vec":
        V = Buf(x, off=c["off"], name="x")
        keep.append(V)
        v = L.l1c_max_vec(N, V.p)
        if N == 0:
            require(np.isnan(v), "maximum of nothing is %r, not NaN", v)
        else:
            require(v == x.max(), "maximum of %d values is %r, expected %r", N, v, x.max())
    elif k == "abs_vec":
        V, O = Buf(x, off=c["off"], name="x"), Buf(N, name="output")
        L.l1c_abs_vec(N, V.p, O.p)
        V.unchanged("x")
        O.guards()
        require(np.array_equal(O.a, ax), "abs_vec, length %d: wrong values", N)
        L.l1c_abs_vec(N, V.p, V.p)
        V.guards()
        require(np.array_equal(V.a, ax), "abs_vec in place, length %d: wrong values", N)
    for q in keep:
        q.unchanged(k + ": " + q.name)
    for q in (X, Y, Z):
        q.guards()
    return dict(nt=bool(nt), labels=lb)


def long_cases():
    return cases(20, 40).flatmap(lambda d: st.one_of(st.integers(5000, 70000), st.sampled_from(
        [2 ** k + o for k in (13, 14, 15, 16, 17, 18) for o in (-1, 0, 1)] + [10 ** 5, 300007])
        ).map(lambda n: dict(d, N=n)))


TESTS = [Test("kernelslong", long_cases(), check, variant="wrap", quick=5000,
              thorough=8 * 10 ** 4, shards=2, cap=25, cap_thorough=300, chunk=50),
         Test("kernels", cases(1100, 5000), check, variant="wrap", quick=200000,
              thorough=4 * 10 ** 6, shards=5, cap=25, cap_thorough=300, chunk=300),
         Test("kernelsmt", cases(2000, 20000), check, variant="wrap", quick=20000,
              thorough=2 * 10 ** 5, shards=1, threads=3, cap=25, cap_thorough=300)]
