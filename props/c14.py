"""C14: whichever allocation (or FFTW plan) fails, the call reports an error, leaves the
outputs alone, leaks nothing, frees nothing twice, and the library stays usable."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from props.opcheck import build_case, check_op
from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "fault_enumeration"
RULE = ("case = an entry point with arguments; the allocations it makes are counted in a "
        "fault-free run, then every single one is failed in turn, and every suffix of "
        "them; one evaluation covers all of these; non-trivial when at least one "
        "allocation was failed")
ASSUMPTIONS = ["faults are injected into the library's own calls (malloc, calloc, realloc, "
               "posix_memalign, aligned_alloc, fftw plan creation); allocations inside "
               "FFTW, BLAS, cJSON and the C library are not failed"]

API = ["dct1", "dct2", "tv", "mat", "l1qc", "l1qcmat", "l1qc_dct", "nesta", "tvd", "m2d",
       "c2d", "calloc", "jdarr", "jiarr", "jload", "jtext"]


@st.composite
def cases(draw):
    api = draw(st.sampled_from(API))
    r, c = draw(gen.image(9, 60, 3))
    av, ah = draw(gen.alpha_tv), draw(gen.alpha_tv)
    return dict(api=api, r=r, c=c, av=av, ah=ah, mode=draw(st.sampled_from([1, 2])),
                bp=draw(st.sampled_from([1, 2])), idx=draw(gen.idx()),
                s=draw(st.integers(0, 10 ** 5)), prior=draw(st.booleans()))


class Scen:
    """run() performs the call and returns (failed?, cleanup)"""

    def __init__(self, c, L):
        self.c, self.L = c, L
        self.outs = []
        m = c["r"] * c["c"]
        self.iv = gen.mkidx(c["idx"], m)
        self.I = lib.ibuf(self.iv)
        rng = np.random.default_rng(c["s"])
        self.b = Buf(rng.standard_normal(len(self.iv)), name="b")
        self.x = Buf(rng.standard_normal(m), name="output array")
        self.f = Buf(rng.standard_normal(m), name="image")
        self.A = Buf(rng.standard_normal(c["r"] * c["c"]), name="A")
        self.m = m

    def op(self):
        c = self.c
        k = {"dct1": lib.DCT1, "dct2": lib.DCT2, "tv": lib.TV, "mat": lib.MAT,
             "l1qc": lib.DCT, "l1qcmat": lib.MAT, "nesta": lib.TV}[c["api"]]
        if k == lib.MAT:
            n, mm = sorted((c["r"], c["c"]))
            return dict(kind=k, n=n, m=mm, A=dict(k="normal", s=c["s"], e=0))
        av, ah = c["av"], c["ah"]
        bp = c["bp"]
        if c["api"] == "nesta":
            bp = lib.ANALYSIS
        return dict(kind=k, mrow=c["r"], mcol=c["c"], av=av, ah=ah, dct_mode=c["mode"],
                    bp=bp, idx=c["idx"])

    def prepare(self):
        """before faults are armed"""
        api = self.c["api"]
        if api in ("l1qc", "l1qcmat", "nesta"):
            self.R, self.keep = build_case(self.L, 0, self.op())
            R = self.R
            rng = np.random.default_rng(self.c["s"])
            self.bb = Buf(rng.standard_normal(R.n), name="b")
            if R.kind == lib.MAT:
                x0 = np.linalg.lstsq(R.A, self.bb.a, rcond=None)[0]
            else:
                x0 = R.ref("Aty", self.bb.a)
            self.x = Buf(x0, name="output array")
        if api in ("jdarr", "jiarr", "jload", "jtext"):
            self.d = tempfile.mkdtemp(prefix="l1cj")
            self.fn = os.path.join(self.d, "x.json").encode()
            with open(self.fn, "w") as fh:
                fh.write('{"a": [%s]}' % ",".join(str(i) for i in range(self.m)))
            if api in ("jdarr", "jiarr"):
                st_ = lib.c_int(0)
                import ctypes
                self.j = self.L.sh_json_load(self.fn, ctypes.byref(st_))
                require(st_.value == 0 and self.j, "loading a valid file failed")

    def finish(self):
        api = self.c["api"]
        if api in ("l1qc", "l1qcmat", "nesta"):
            self.L.sh_destroy(0)
        if api in ("jdarr", "jiarr"):
            self.L.sh_json_delete(self.j)
        if api in ("jdarr", "jiarr", "jload", "jtext"):
            os.unlink(self.fn)
            os.rmdir(self.d)

    def call(self):
        """-> failed (bool); on success the result is released again"""
        L, c, api = self.L, self.c, self.c["api"]
        import ctypes
        if api in ("dct1", "dct2", "tv", "mat"):
            o = self.op()
            if api == "mat":
                s = L.setup(1, lib.MAT, o["n"], o["m"], 1, A=self.A)
            else:
                s = L.setup(1, o["kind"], len(self.iv), c["r"], c["c"], o["av"], o["ah"],
                            c["mode"], c["bp"], idx=self.I)
            if s == 0:
                L.sh_destroy(1)
            else:
                require(s in (lib.OUT_OF_MEMORY, lib.DCT_INIT_FAILURE),
                        "a failed allocation gave status %d", s)
            return s != 0
        if api in ("l1qc", "l1qcmat"):
            o = lib.l1qc_opts(epsilon=.3, lbtol=.1, newton_max_iter=3, cg_maxiter=8)
            res = Buf(4)
            L.sh_l1qc(0, self.R.m, self.x.p, self.R.n, self.bb.p, o.p, res.p, 0)
            return res.a[3] != 0
        if api == "l1qc_dct":
            o = lib.l1qc_opts(epsilon=.3, lbtol=.1, newton_max_iter=3, cg_maxiter=8,
                              dct_mode=c["mode"])
            res = Buf(4)
            return L.sh_l1qc_dct(c["r"], c["c"], self.x.p, len(self.iv), self.b.p, self.I.p,
                                 o.p, res.p) != 0
        if api == "nesta":
            o = lib.nesta_opts(.5, .1, .2, 1)
            return L.sh_nesta(0, self.R.m, self.x.p, self.R.n, self.bb.p, o.p) != 0
        if api == "tvd":
            return L.l1c_breg_anistropic_TV(c["r"], c["c"], self.x.p, self.f.p, 2., 1e-2, 3,
                                            1) != 0
        if api in ("m2d", "c2d"):
            f = L.l1c_malloc_double_2D if api == "m2d" else L.l1c_calloc_double_2D
            p = f(c["r"], c["c"])
            if p:
                L.l1c_free_double_2D(c["r"], p)
            return not p
        if api == "calloc":
            p = L.l1c_calloc_double(self.m)
            if p:
                L.l1c_free_double(p)
            return not p
        N, al = lib.c_int(0), lib.c_int(0)
        if api == "jdarr":
            o = Buf(self.m)
            return L.sh_json_darr(self.j, b"a", o.p, self.m, ctypes.byref(N),
                                  ctypes.byref(al)) != 0
        if api == "jiarr":
            o = lib.ibuf(np.zeros(self.m))
            return L.sh_json_iarr(self.j, b"a", o.p, self.m, ctypes.byref(N)) != 0
        if api == "jload":
            st_ = lib.c_int(0)
            j = L.sh_json_load(self.fn, ctypes.byref(st_))
            if j:
                L.sh_json_delete(j)
            return st_.value != 0
        if api == "jtext":
            o = Buf(self.m)
            return L.sh_json_text(self.fn, o.p, 8, ctypes.byref(N)) != 0


def check(c, L):
    L.sh_log_replace(2)
    L.ft_reset()
    if c["prior"] and c["api"] in ("dct1", "dct2", "tv", "l1qc_dct"):
        # stale state of an earlier, destroyed operator set
        for k in (lib.DCT1, lib.DCT2):
            R, keep = build_case(L, 5, dict(kind=k, mrow=3, mcol=4, idx=c["idx"]))
            L.sh_destroy(5)
    base, bplans = L.ft_live(), L.ft_plans()
    S = Scen(c, L)
    S.prepare()
    try:
        live0, plans0 = L.ft_live(), L.ft_plans()
        L.ft_reset()
        S.x.mark()
        x0 = S.x.a.copy()
        require(not S.call(), "the fault-free call failed")
        n = L.ft_count()

        def clean(what):
            L.ft_arm(0, 0)
            require(L.ft_badfree() == 0, "%s: %d invalid or double frees", what,
                    L.ft_badfree())
            require(L.ft_planbad() == 0, "%s: %d FFTW plans destroyed twice", what,
                    L.ft_planbad())
            require(L.ft_plans() == plans0, "%s: %d FFTW plans leaked", what,
                    L.ft_plans() - plans0)
            require(L.ft_live() == live0, "%s: %d blocks leaked", what,
                    L.ft_live() - live0)

        clean("no fault")
        for k in range(1, n + 1):
            for mode in (0, 1):
                S.x.a[:] = x0
                S.x.mark()
                what = "allocation %d of %d %s" % (k, n, "and all later ones fail" if mode
                                                   else "fails")
                L.ft_reset()
                L.ft_arm(0 if mode else k, k if mode else 0)
                failed = S.call()
                L.ft_arm(0, 0)
                require(failed, "%s: success was reported", what)
                S.x.unchanged("the output array (%s)" % what)
                clean(what)
        # still usable
        S.x.a[:] = x0
        L.ft_reset()
        require(not S.call(), "the call fails after earlier faults")
        clean("after the faults")
        if c["api"] in ("dct1", "dct2", "tv", "l1qc_dct"):
            R, keep = build_case(L, 5, dict(kind=lib.DCT, mrow=c["r"], mcol=c["c"],
                                            dct_mode=c["mode"], idx=c["idx"]))
            try:
                for op in ("Ax", "Aty", "Mx"):
                    check_op(L, 5, R, op, gen.mkvec(dict(k="normal", s=c["s"], e=0), R.m))
            finally:
                L.sh_destroy(5)
    finally:
        L.ft_arm(0, 0)
        S.finish()
        L.sh_log_replace(0)
    require(L.ft_live() == base and L.ft_plans() == bplans, "blocks or plans leaked")
    return dict(nt=n > 0, labels=[c["api"], "%s: %d faults" % (c["api"], n)])


TESTS = [Test("faults", cases(), check, variant="wrap", quick=10000, thorough=2 * 10 ** 5,
              shards=8, cap=30, cap_thorough=400, chunk=50)]
