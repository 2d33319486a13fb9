"""C03: results depend on the arguments only, never on what the library did before."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from props.opcheck import build_case, check_dims, check_op
from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, Violation, require

LEVEL = "exploration"
RULE = ("case = a history of up to 14 steps (set up / use / destroy a DCT, DCT+TV or "
        "matrix operator set, rejected set-ups while one is live, solver runs, whole "
        "l1qc_dct calls, TV denoising); non-trivial when an operator set was used after at "
        "least one other set was destroyed, rejected or used in between")
ASSUMPTIONS = ["at most one set of the DCT family (dct1, dct2, DCT+TV, l1qc_dct) is live "
               "at a time and every successful set-up is destroyed before the next: the "
               "documented single-instance design; a matrix set may be live besides it"]


@st.composite
def step(draw):
    k = draw(st.sampled_from(["setup", "apply", "apply", "apply", "reject", "mat",
                              "matapply", "destroy", "l1qc", "nesta", "tv", "l1qc_dct",
                              "again", "matl1qc", "matdestroy"]))
    d = dict(k=k)
    if k == "setup":
        kind = draw(st.sampled_from([lib.DCT, lib.DCT1, lib.DCT2, lib.TV, lib.TV]))
        av = ah = 0.
        mn = 1
        if kind == lib.TV:
            av, ah = draw(gen.alpha_tv), draw(gen.alpha_tv)
            if av or ah:
                mn = 3
        if kind == lib.DCT2:
            mn = 2
        r, c = draw(gen.image(14, 150, mn, rare_big=60))
        d.update(kind=kind, mrow=r, mcol=c, av=av, ah=ah,
                 dct_mode=draw(st.sampled_from([1, 2])),
                 bp=draw(st.sampled_from([1, 2])), idx=draw(gen.idx()))
    elif k == "mat":
        d.update(kind=lib.MAT, n=draw(st.integers(1, 20)), m=draw(st.integers(1, 30)),
                 A=draw(gen.vec(emin=-1, emax=1)))
    elif k in ("apply", "matapply"):
        d.update(op=draw(st.sampled_from(list(lib.OPS))), x=draw(gen.vec(emin=-3, emax=3)))
    elif k == "reject":
        d.update(how=draw(st.sampled_from(["n0", "nneg", "r0", "c0", "ihi", "ineg", "aneg",
                                           "small", "mat0", "matneg"])),
                 kind=draw(st.sampled_from([lib.DCT, lib.TV])), same=draw(st.booleans()),
                 r=draw(st.integers(3, 9)), c=draw(st.integers(3, 9)))
    elif k in ("l1qc", "nesta", "l1qc_dct", "tv", "matl1qc"):
        d.update(s=draw(st.integers(0, 4)))
    return d


strategy = st.lists(step(), min_size=2, max_size=14).map(lambda s: dict(steps=s))


class Run:
    def __init__(self, L):
        self.L = L
        self.dct = self.mat = None  # (Ops, keep)
        self.memo = {}
        self.events = 0  # things that could disturb
        self.nt = False

    def destroy(self):
        if self.dct:
            self.L.sh_destroy(0)
            self.dct = None
            self.memo = {k: v for k, v in self.memo.items() if k[0] != 0}
            self.events += 1

    def destroy_mat(self):
        if self.mat:
            self.L.sh_destroy(1)
            self.mat = None
            self.memo = {k: v for k, v in self.memo.items() if k[0] != 1}
            self.events += 1

    def same(self, key, out):
        """the same call on the same live set gives the same bits, whatever ran between"""
        b = np.asarray(out).tobytes()
        if key in self.memo:
            if self.memo[key] != b:
                raise Violation("repeating the same call (%s) gave a different result"
                                % (key[1],))
        self.memo[key] = b

    def apply(self, slot, d):
        R, keep = self.dct if slot == 0 else self.mat
        op = d["op"]
        if op not in R.sizes():
            return
        x = gen.mkvec(d["x"], R.sizes()[op][0])
        out = check_op(self.L, slot, R, op, x)
        self.same((slot, "%s %r" % (op, sorted(d["x"].items()))), out)
        keep.unchanged("index array / matrix")
        if self.events >= 2 and np.any(x):
            self.nt = True


def reject(L, d, live):
    """a set-up that has to be refused; with a live set, a caller may well pass the very
    structure that holds it"""
    slot = 3
    if live and d.get("same"):
        slot = 0x100
        L.sh_slot_save(0)
    reject_(L, d, slot)
    if slot == 0x100:
        require(L.sh_slot_same(0) == 1, "a rejected set-up changed the operator "
                "structure of the live set")


def reject_(L, d, slot):
    how, kind, r, c = d["how"], d["kind"], d["r"], d["c"]
    iv = np.arange(r * c // 2, dtype=np.int32)
    n, av, ah = len(iv), 0., 0.
    if how.startswith("mat"):
        A = Buf(np.ones(r * c))
        st_ = L.setup(slot, lib.MAT, 0 if how == "mat0" else r, -c if how == "matneg" else c,
                      1, A=A)
        require(st_ == lib.INVALID_ARGUMENT, "matrix set-up with bad size returned %d", st_)
        return
    if how == "n0":
        n = 0
    elif how == "nneg":
        n = -3
    elif how == "r0":
        r = 0
    elif how == "c0":
        c = 0
    elif how == "ihi":
        iv[len(iv) // 2] = r * c
    elif how == "ineg":
        iv[-1] = -1
    elif how == "aneg":
        kind, av = lib.TV, -1.0
    elif how == "small":
        kind, ah, r = lib.TV, 1.0, 2
        iv = np.arange(r * c // 2, dtype=np.int32)
        n = len(iv)
    I = lib.ibuf(iv)
    st_ = L.setup(slot, kind, n, r, c, av, ah, 2, 1, idx=I)
    require(st_ == lib.INVALID_ARGUMENT, "invalid set-up (%s) returned %d", how, st_)


def run_l1qc(L, slot, R, s):
    r = np.random.default_rng(s)
    xt = r.standard_normal(R.m) * (r.random(R.m) < .3)
    b = R.ref("Ax", xt)
    x0 = R.ref("Aty", b)
    # any feasible start: for the DCT sets A A' = I
    B = Buf(b, name="b")
    X = Buf(x0, name="x")
    eps = max(1e-3, 1.5 * np.linalg.norm(R.ref("Ax", x0) - b)) + .1
    o = lib.l1qc_opts(epsilon=eps, lbtol=1e-2, newton_max_iter=8, cg_maxiter=40)
    res = Buf(4)
    L.sh_l1qc(slot, R.m, X.p, R.n, B.p, o.p, res.p, 0)
    X.guards()
    B.unchanged("b")
    return np.concatenate([X.a, res.a])


def run_nesta(L, R, s):
    r = np.random.default_rng(s)
    xt = r.standard_normal(R.m)
    b = R.ref("Ax", xt) + .1
    B, X = Buf(b, name="b"), Buf(R.m, name="xk")
    o = lib.nesta_opts(1e-2, 1e-3, .1, 2)
    st_ = L.sh_nesta(0, R.m, X.p, R.n, B.p, o.p)
    require(st_ == 0, "nesta returned %d", st_)
    X.guards()
    B.unchanged("b")
    return X.a


def check(c, L):
    L.ft_reset()
    live0, plans0 = L.ft_live(), L.ft_plans()
    S = Run(L)
    labels = set()
    last = {0: None, 1: None}
    try:
        for d in c["steps"]:
            k = d["k"]
            labels.add(k)
            if k == "setup":
                S.destroy()
                S.dct = build_case(L, 0, d)
                check_dims(L, 0, S.dct[0])
            elif k == "mat":
                S.destroy_mat()
                S.mat = build_case(L, 1, d)
                check_dims(L, 1, S.mat[0])
            elif k == "destroy":
                S.destroy()
            elif k == "matdestroy":
                S.destroy_mat()
            elif k == "apply" and S.dct:
                last[0] = d
                S.apply(0, d)
            elif k == "matapply" and S.mat:
                last[1] = d
                S.apply(1, d)
            elif k == "again":
                for slot in (0, 1):
                    if last[slot] and (S.dct if slot == 0 else S.mat):
                        S.apply(slot, last[slot])
            elif k == "reject":
                reject(L, d, S.dct)
                S.events += 1
            elif k == "tv":
                r = np.random.default_rng(d["s"])
                n, m = int(r.integers(3, 9)), int(r.integers(3, 9))
                F, U = Buf(r.standard_normal(n * m)), Buf(n * m)
                st_ = L.l1c_breg_anistropic_TV(n, m, U.p, F.p, 3.0, 1e-3, 10, 1)
                require(st_ == 0, "TV denoising returned %d", st_)
                F.unchanged("image f")
                U.guards()
                S.same((9, "tv %d" % d["s"]), U.a)
                S.events += 1
            elif k == "l1qc" and S.dct:
                R = S.dct[0]
                if R.kind != lib.TV or (R.av == 0 and R.ah == 0):
                    S.same((0, "l1qc %d" % d["s"]), run_l1qc(L, 0, R, d["s"]))
                    S.events += 1
            elif k == "matl1qc" and S.mat and S.mat[0].n <= S.mat[0].m:
                S.same((1, "l1qc %d" % d["s"]), run_l1qc(L, 1, S.mat[0], d["s"]))
                S.events += 1
            elif k == "nesta" and S.dct:
                R = S.dct[0]
                if R.m == R.mt and R.n < R.mt:
                    S.same((0, "nesta %d" % d["s"]), run_nesta(L, R, d["s"]))
                    S.events += 1
            elif k == "l1qc_dct":
                S.destroy()
                r = np.random.default_rng(d["s"])
                mr, mc = int(r.integers(1, 9)), int(r.integers(1, 9))
                m = mr * mc
                iv = r.permutation(m)[:max(1, m // 2)]
                I, B = lib.ibuf(iv), Buf(r.standard_normal(len(iv)))
                X, res = Buf(m), Buf(4)
                o = lib.l1qc_opts(epsilon=.1, lbtol=1e-2, newton_max_iter=6,
                                  cg_maxiter=30, dct_mode=int(r.integers(1, 3)))
                st_ = L.sh_l1qc_dct(mr, mc, X.p, len(iv), B.p, I.p, o.p, res.p)
                require(st_ == 0, "l1qc_dct returned %d", st_)
                X.guards()
                S.same((9, "l1qc_dct %d" % d["s"]), np.concatenate([X.a, res.a]))
                S.events += 1
        # whatever is still live still computes its own definition
        for slot, o in ((0, S.dct), (1, S.mat)):
            if o:
                for op in o[0].sizes():
                    S.apply(slot, dict(op=op, x=dict(k="normal", s=1, e=0)))
    finally:
        S.destroy()
        S.destroy_mat()
    require(L.ft_badfree() == 0, "%d invalid or double frees", L.ft_badfree())
    require(L.ft_planbad() == 0, "%d FFTW plans destroyed twice", L.ft_planbad())
    require(L.ft_plans() == plans0, "%d FFTW plans never destroyed", L.ft_plans() - plans0)
    require(L.ft_live() == live0, "%d blocks still allocated after destroy",
            L.ft_live() - live0)
    return dict(nt=S.nt, labels=sorted(labels))


TESTS = [Test("history", strategy, check, variant="wrap", quick=60000, thorough=10 ** 6,
              shards=8, cap=40, cap_thorough=600)]
