"""C16: results do not depend on how many threads the library uses, nor on calls other
threads make at the same time."""
import ctypes
import os
import threading
import time

import numpy as np
from hypothesis import strategies as st

from props import c08, c09, c11, c12
from props.mix import mix, nontrivial, run
from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("threads: case = a call drawn from the generators of the operator, solver and kernel "
        "properties, run with 3, 4 and 8 OpenMP threads and judged by that property's "
        "oracle (each case several times); concurrent: 2 to 5 calls that keep no operator set "
        "(denoising, differences, conjugate gradients, kernels, allocation), each first "
        "alone, then all at once in threads of their own, compared bit by bit; "
        "non-trivial by the rule of the property the case is drawn from / when at least two "
        "calls overlap")
ASSUMPTIONS = ["schedules are sampled by running, not enumerated: a race that the scheduler "
               "never exposes here goes unseen",
               "operator sets are process-wide state by design, so calls that use one are "
               "not run concurrently"]

NAMES = ["dct", "dcttv", "matrix", "l1qc", "l1qc_dct", "nestafast", "tv", "tvsym", "cg", "diff",
         "kernels"]

LONGS = ["difflong", "kernelslong", "tvlong"]


def check(c, L):
    n = 2
    t0 = time.time()
    if os.environ.get("VF_REPLAY"):
        n = 2000
    for k in range(n):
        r = run(c, L)
        if k > 2 and time.time() - t0 > 15:
            break
    return dict(nt=nontrivial(r), labels=[c["what"]])


# ------------------------------------------------------------------ concurrent calls
@st.composite
def task(draw):
    k = draw(st.sampled_from(["tv", "tv", "diff", "cg", "kern", "alloc"]))
    if k == "tv":
        c = draw(c08.cases(300, False))
    elif k == "diff":
        c = draw(c11.cases())
    elif k == "cg":
        c = draw(c09.cases(30, 3.))
        c["pre"] = "none" if c["pre"] == "none" else "jacobi"
    elif k == "kern":
        c = dict(n=draw(gen.size(1000)), s=draw(st.integers(0, 10 ** 6)))
    else:
        c = dict(n=draw(gen.size(300)), r=draw(st.integers(1, 8)),
                 s=draw(st.integers(0, 10 ** 6)))
    return [k, c]


class Task:
    """prepares its arrays up front; go() only calls the library"""

    def __init__(self, t, L):
        self.k, c = t
        self.c, self.L = c, L
        k = self.k
        if k == "tv":
            self.f = c08.mkimg(c)
            self.mu = c08.weights(c, self.f)
            self.F = Buf(self.f, name="image")
            self.out = [Buf(self.f.size, name="denoised image")]
        elif k == "diff":
            self.n, self.m = c["n"], c["m"]
            self.x = Buf(np.random.default_rng(c.get("s", 1)).standard_normal(
                self.n * self.m))
            self.out = [Buf(self.n * self.m, name="difference image") for _ in range(6)]
        elif k == "cg":
            self.A, self.b, self.x0, self.mi, _ = c09.system(c)
            N = c["N"]
            self.AA, self.B = Buf(self.A), Buf(self.b)
            self.MI = Buf(self.mi) if self.mi is not None else None
            self.out = [Buf(self.x0, name="CG solution"), Buf(5)]
            self.W = [Buf(N) for _ in range(5)]
            self.wp = (ctypes.c_void_p * 5)(*[w.p.value for w in self.W])
        elif k == "kern":
            r = np.random.default_rng(c["s"])
            self.x, self.y = Buf(r.random(c["n"]) + .1), Buf(r.standard_normal(c["n"]))
            self.out = [Buf(c["n"], name="kernel output") for _ in range(3)]
            self.sc = Buf(4, name="kernel sums")
            self.out.append(self.sc)
        else:
            self.out = [Buf(1, name="sum of an allocated block")]

    def reset(self):
        for o in self.out:
            o.a[:] = o.orig

    def go(self):
        L, c, k = self.L, self.c, self.k
        if k == "tv":
            n, m = self.f.shape
            L.l1c_breg_anistropic_TV(n, m, self.out[0].p, self.F.p, self.mu, 1e-6, 40,
                                     c["jac"])
        elif k == "diff":
            n, m = self.n, self.m
            fs = ["l1c_Dx", "l1c_Dy"]
            if m > 1:
                fs += ["l1c_DxT", "l1c_DxTDx"]
            if n > 1:
                fs += ["l1c_DyT", "l1c_DyTDy"]
            for _ in range(20):
                for f, o in zip(fs, self.out):
                    getattr(L, f)(n, m, 1.5, self.x.p, o.p)
        elif k == "cg":
            for _ in range(3):
                self.out[0].a[:] = self.x0
                L.sh_cg(c["N"], self.out[0].p, self.B.p, self.AA.p,
                        self.MI.p if self.MI else None, self.wp, c["tol"],
                        min(c["it"], 60), 0, 0, self.out[1].p)
        elif k == "kern":
            n = c["n"]
            for _ in range(20):
                L.l1c_daxpy_z(n, 1.5, self.x.p, self.y.p, self.out[0].p)
                L.l1c_dxmuly_z(n, self.x.p, self.y.p, self.out[1].p)
                L.l1c_abs_vec(n, self.y.p, self.out[2].p)
                self.sc.a[0] = L.l1c_dsum(n, self.x.p)
                self.sc.a[1] = L.l1c_dnorm1(n, self.y.p)
                self.sc.a[2] = L.l1c_dlogsum(n, 2., self.x.p)
                self.sc.a[3] = L.vcl_sum(n, self.x.p)
        else:
            for q in range(10):
                p = L.l1c_calloc_double_2D(c["r"], c["n"])
                rows = (ctypes.c_void_p * c["r"]).from_address(p)
                s = 0.
                for i in range(c["r"]):
                    v = np.frombuffer((ctypes.c_double * c["n"]).from_address(rows[i]))
                    s += float(np.abs(v).sum())
                    v[:] = 1.
                L.l1c_free_double_2D(c["r"], p)
                self.out[0].a[0] = s

    def bits(self):
        for o in self.out:
            o.guards()
        return [o.a.tobytes() for o in self.out]


def check_conc(c, L):
    L.sh_log_replace(2)
    tasks = [Task(t, L) for t in c["tasks"]]
    alone = []
    for t in tasks:
        t.go()
        alone.append(t.bits())
    reps = 400 if os.environ.get("VF_REPLAY") else 3
    try:
        for rep in range(reps):
            bar = threading.Barrier(len(tasks))

            def body(t):
                bar.wait()
                t.go()

            for t in tasks:
                t.reset()
            th = [threading.Thread(target=body, args=(t,)) for t in tasks]
            for x in th:
                x.start()
            for x in th:
                x.join()
            for t, a in zip(tasks, alone):
                for o, b in zip(t.out, a):
                    require(o.a.tobytes() == b, "%s (%s) differs when other calls run at "
                            "the same time", o.name, t.k)
                    o.guards()
    finally:
        L.sh_log_replace(0)
    return dict(nt=len(tasks) > 1, labels=sorted({t.k for t in tasks}))


conc = st.lists(task(), min_size=2, max_size=5).map(lambda t: dict(tasks=t))

SPIN = dict(OMP_WAIT_POLICY="ACTIVE", GOMP_SPINCOUNT="30000")

TESTS = [Test("threads3", mix(NAMES, longs=LONGS), check, variant="wrap", threads=3, quick=20000,
              thorough=4 * 10 ** 5, shards=1, cap=30, cap_thorough=400, chunk=60, env=SPIN),
         Test("concurrent", conc, check_conc, variant="plain", threads=1, quick=20000,
              thorough=2 * 10 ** 5, shards=1, cap=30, cap_thorough=400, chunk=60),
         Test("threads4", mix(NAMES, longs=LONGS), check, variant="wrap", threads=4, quick=20000,
              thorough=4 * 10 ** 5, shards=1, cap=30, cap_thorough=400, chunk=60, env=SPIN),
         Test("threads8", mix(NAMES, longs=LONGS), check, variant="wrap", threads=8, quick=20000,
              thorough=4 * 10 ** 5, shards=1, cap=25, cap_thorough=400, chunk=60, env=SPIN)]
