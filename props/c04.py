"""C04: invalid arguments are rejected with the documented status and no side effect;
valid ones are accepted."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = an entry point with arguments around the boundary of its domain (zero, "
        "negative and off-by-one sizes, indices -1, 0, mrow*mcol-1, mrow*mcol, beyond, "
        "negative weights, images of 2 or 3 rows); the oracle is the documented domain; "
        "non-trivial when at least one argument lies on or just beyond the boundary")
ASSUMPTIONS = ["sizes are small enough that mrow*mcol does not overflow"]

sz = st.one_of(st.integers(-2, 5), st.sampled_from([-100, -1, 0, 1, 2, 3, 16, 17]))
wt = st.sampled_from([0.0, 1.0, .5, -0.5, -1e-9, 1e-9, -0.0, 3.0])


@st.composite
def strat(draw):
    api = draw(st.sampled_from(["dct", "tv", "mat", "l1qc_dct", "nesta", "nesta_null"]))
    r, c = draw(sz), draw(sz)
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(-3, 3)))
    bad = draw(st.lists(st.tuples(
        st.integers(0, 7), st.sampled_from(["-1", "0", "last", "end", "far", "nfar"])),
        max_size=2))
    return dict(api=api, r=r, c=c, n=n, bad=bad, av=draw(wt), ah=draw(wt),
                mode=draw(st.sampled_from([1, 2])), bp=draw(st.sampled_from([1, 2])),
                s=draw(st.integers(0, 999)), dm=draw(st.sampled_from([-1, 0, 1, 0, 3, -2])),
                dn=draw(st.sampled_from([-1, 0, 1, 0, 3, -2])), null=draw(st.integers(0, 5)))


def indices(c):
    m = c["r"] * c["c"]
    r = np.random.default_rng(c["s"])
    k = max(c["n"], 1)
    iv = r.permutation(max(m, 1))[:k].astype(np.int64)
    if len(iv) < k:
        iv = np.concatenate([iv, np.zeros(k - len(iv), dtype=np.int64)])
    for pos, what in c["bad"]:
        iv[pos % k] = {"-1": -1, "0": 0, "last": m - 1, "end": m, "far": m + 1000,
                       "nfar": -5000}[what]
    return iv.astype(np.int32)


def dct_ok(c, iv):
    m = c["r"] * c["c"]
    return (c["n"] > 0 and c["r"] > 0 and c["c"] > 0
            and np.all(iv[:max(c["n"], 0)] >= 0) and np.all(iv[:max(c["n"], 0)] < m))


def edge(c, iv):
    m = c["r"] * c["c"]
    return (c["n"] <= 1 or c["r"] <= 1 or c["c"] <= 1 or np.any(iv < 0) or np.any(iv >= m - 1)
            or c["av"] < 0 or c["ah"] < 0 or 2 in (c["r"], c["c"]))


def check(c, L):
    api = c["api"]
    iv = indices(c)
    I = lib.ibuf(iv)
    live0, plans0 = L.ft_live(), L.ft_plans()
    L.ft_reset()
    r, cc, n = c["r"], c["c"], c["n"]
    ok = dct_ok(c, iv)
    nt = edge(c, iv)
    L.sh_slot_fill(0, 0x5a)
    L.sh_slot_save(0)
    KEEP = 0x100  # the structure goes in as it is

    def untouched():
        require(L.sh_slot_same(0) == 1, "a rejected set-up wrote to the operator structure")

    if api in ("dct", "tv"):
        if api == "tv":
            av, ah = c["av"], c["ah"]
            ok = ok and av >= 0 and ah >= 0 and not ((av > 0 or ah > 0)
                                                     and (r <= 2 or cc <= 2))
            s = L.setup(KEEP, lib.TV, n, r, cc, av, ah, c["mode"], c["bp"], idx=I)
        else:
            s = L.setup(KEEP, lib.DCT, n, r, cc, dct_mode=c["mode"], idx=I)
        if ok:
            require(s == 0, "valid arguments were rejected with status %d", s)
            L.sh_destroy(0)
        else:
            require(s == lib.INVALID_ARGUMENT, "invalid arguments gave status %d", s)
            untouched()
    elif api == "mat":
        A = Buf(np.arange(max(1, r * cc if r > 0 and cc > 0 else 1), dtype=float))
        s = L.setup(KEEP, lib.MAT, r, cc, 1, A=A)
        nt = r <= 1 or cc <= 1
        if r > 0 and cc > 0:
            require(s == 0, "a valid matrix was rejected with status %d", s)
            L.sh_destroy(0)
        else:
            require(s == lib.INVALID_ARGUMENT, "invalid matrix size gave status %d", s)
            untouched()
        A.unchanged()
    elif api == "l1qc_dct":
        m = max(r * cc, 1) if (r > 0 and cc > 0) else 4
        rng = np.random.default_rng(c["s"])
        X = Buf(rng.standard_normal(m), name="x_out")
        B = Buf(rng.standard_normal(max(n, 1)), name="b")
        res = Buf(np.array([11., 12., 13., 14.]), name="result struct")
        o = lib.l1qc_opts(epsilon=.5, lbtol=1e-1, newton_max_iter=3, cg_maxiter=10,
                          dct_mode=c["mode"])
        if ok and len(set(iv[:n].tolist())) < n:
            return False  # repeated pixels: outside the documented domain
        s = L.sh_l1qc_dct(r, cc, X.p, n, B.p, I.p, o.p, res.p)
        B.unchanged("b")
        X.guards()
        if ok:
            require(s == 0, "valid arguments were rejected with status %d", s)
        else:
            require(s != 0, "invalid arguments were accepted")
            X.unchanged("x_out of a rejected call")
    else:
        rg = np.random.default_rng(c["s"])
        rr, rc = int(rg.integers(3, 6)), int(rg.integers(3, 6))
        mt = rr * rc
        J = lib.ibuf(rg.permutation(mt)[:int(rg.integers(1, mt))])
        nn = J.n
        av, ah = abs(c["av"]), abs(c["ah"])
        if c["bp"] == lib.SYNTHESIS:
            av = ah = 0.  # see C07
        if c["mode"] == 1 and c["s"] % 3 == 0:
            s = L.setup(0, lib.DCT, nn, rr, rc, dct_mode=1 + c["s"] % 2, idx=J)
        else:
            s = L.setup(0, lib.TV, nn, rr, rc, av, ah, c["mode"], c["bp"], idx=J)
        require(s == 0, "set-up failed with %d", s)
        try:
            X = Buf(np.linspace(-1, 1, mt + 4), name="xk")
            B = Buf(np.linspace(1, 2, nn + 4), name="b")
            o = lib.nesta_opts(1e-2, 1e-2, .1, 2)
            if api == "nesta":
                s = L.sh_nesta(0, mt + c["dm"], X.p, nn + c["dn"], B.p, o.p)
                bad = c["dm"] or c["dn"]
                nt = bool(bad)
                if bad:
                    require(s == lib.INVALID_ARGUMENT, "dimension mismatch (m%+d, n%+d) "
                            "gave status %d", c["dm"], c["dn"], s)
                    X.unchanged("xk of a rejected call")
                else:
                    require(s == 0, "valid call gave status %d", s)
            else:
                L.sh_copy_slot(0, 2)
                op = [5, 6, 7, 8, 0, 1][c["null"] % 6]
                L.sh_null_op(2, op)
                s = L.sh_nesta(2, mt, X.p, nn, B.p, o.p)
                require(s == lib.INCONSISTENT_ARGUMENTS,
                        "missing operator %d gave status %d", op, s)
                X.unchanged("xk of a rejected call")
                nt = True
            B.unchanged("b")
            X.guards()
        finally:
            L.sh_destroy(0)
    I.unchanged("index array")
    require(L.ft_badfree() == 0, "%d invalid or double frees", L.ft_badfree())
    require(L.ft_planbad() == 0, "%d FFTW plans destroyed twice", L.ft_planbad())
    require(L.ft_plans() == plans0, "%d FFTW plans leaked", L.ft_plans() - plans0)
    require(L.ft_live() == live0, "%d blocks leaked", L.ft_live() - live0)
    return dict(nt=nt, labels=[api, api + (" ok" if s == 0 else " rejected")])


TESTS = [Test("args", strat(), check, variant="wrap", quick=200000, thorough=2 * 10 ** 6,
              shards=8, cap=25, cap_thorough=300, chunk=300)]
