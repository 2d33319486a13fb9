"""C17: everything the library says goes through the replaceable print function, silence
means silence, and talking changes nothing."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from props import c05, c06, c07, c08, c09
from props.l1common import make, opts, sloppy
from props.opcheck import build_case
from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = a solver call (conjugate gradients, log-barrier, image reconstruction, NESTA, "
        "denoising, failing line search) with a verbosity level, run with the print function "
        "replaced by a recorder while the real standard output is captured, and run again "
        "at another level; or a sequence of replacements; non-trivial when something was "
        "printed or the level was zero for a call that iterates")
ASSUMPTIONS = ["error messages on standard error are not covered",
               "the log-barrier solver may print a warning at level zero when its line "
               "search fails; the other solvers may not print at level zero"]


WARN = re.compile(r"warn|fail|unable|cannot|could not|error|returning|trying|stopping", re.I)


class Stdout:
    """captures fd 1"""

    def __init__(self, L):
        self.L = L

    def __enter__(self):
        self.L.sh_flush()
        self.save = os.dup(1)
        self.fd = os.memfd_create("out")
        os.dup2(self.fd, 1)
        return self

    def __exit__(self, *a):
        self.L.sh_flush()
        os.dup2(self.save, 1)
        os.close(self.save)
        n = os.lseek(self.fd, 0, 2)
        os.lseek(self.fd, 0, 0)
        self.text = os.read(self.fd, min(n, 1 << 20)).decode(errors="replace")
        os.close(self.fd)


def quiet_call(L, f):
    """f() with the recorder installed; -> (result, recorded text)"""
    require(L.sh_log_replace(1) == 0, "replacing the print function did not return the "
            "previous one")
    L.sh_log_reset()
    try:
        with Stdout(L) as o:
            r = f()
    finally:
        old = L.sh_log_replace(0)
    require(old == 1, "replacing the print function did not return the previous one")
    require(o.text == "", "with the print function replaced, this still went to the standard "
            "output: %r", o.text[:120])
    return r, L.sh_log_text().decode(errors="replace") if L.sh_log_len() else ""


# ------------------------------------------------------------------ the solvers
@st.composite
def cases(draw):
    k = draw(st.sampled_from(["cg", "cg", "l1qc", "l1qc_dct", "nesta", "tv"]))
    v = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 10, 1000]))
    w = draw(st.sampled_from([0, 1, 2, 4]))
    if k == "cg":
        c = draw(c09.cases(20, 3.))
    elif k == "l1qc":
        c = draw(c05.cases(sloppy()))
    elif k == "l1qc_dct":
        c = draw(c06.cases(sloppy(), 60))
    elif k == "nesta":
        c = draw(c07.cases(False, 60))
        c["tol"], c["nc"] = max(c["tol"], -4.), min(c["nc"], 3)
    else:
        c = draw(c08.cases(60, False))
    return dict(k=k, c=c, v=v, w=w, cv=draw(st.sampled_from([0, 1, 3])))


def call(c, L, v, cv, rec):
    """rec: list that receives the outputs"""
    k, d = c["k"], c["c"]
    if k == "cg":
        A, b, x0, mi, _ = c09.system(d)
        X, B, AA = Buf(x0), Buf(b), Buf(A)
        MI = Buf(mi) if mi is not None else None
        W = [Buf(d["N"]) for _ in range(5)]
        import ctypes
        wp = (ctypes.c_void_p * 5)(*[q.p.value for q in W])
        out = Buf(5)
        f = lambda: L.sh_cg(d["N"], X.p, B.p, AA.p, MI.p if MI else None, wp, d["tol"],
                            d["it"], v, 0, out.p)
        _, t = quiet_call(L, f)
        rec += [X.a, out.a]
        return t, out.a[1]
    if k == "l1qc":
        R, keep = build_case(L, 0, d["op"])
        try:
            b, eps, x0 = make(R, d["sig"])
            X, B, res = Buf(x0), Buf(b), Buf(4)
            O = lib.l1qc_opts(epsilon=eps, **dict(d["o"], verbose=v, cg_verbose=cv))
            _, t = quiet_call(L, lambda: L.sh_l1qc(0, R.m, X.p, R.n, B.p, O.p, res.p, 0))
        finally:
            L.sh_destroy(0)
        rec += [X.a, res.a]
        return t, res.a[1]
    m = d["r"] * d["c"] if k != "tv" else 0
    if k == "l1qc_dct":
        from vf import ref
        iv = gen.mkidx(d["idx"], m)
        b = c06.samples(d, ref.Ops(lib.DCT, d["r"], d["c"], iv, d["mode"]), iv)
        nb = np.linalg.norm(b)
        I, B, X, res = lib.ibuf(iv), Buf(b), Buf(m), Buf(4)
        O = lib.l1qc_opts(epsilon=10.0 ** d["er"] * nb if nb else .1, **dict(
            d["o"], dct_mode=d["mode"], verbose=v, cg_verbose=cv))
        _, t = quiet_call(L, lambda: L.sh_l1qc_dct(d["r"], d["c"], X.p, len(iv), B.p, I.p,
                                                   O.p, res.p))
        rec += [X.a, res.a]
        return t, res.a[1]
    if k == "nesta":
        iv = gen.mkidx(d["idx"], m)
        I = lib.ibuf(iv)
        s = L.setup(0, lib.TV, len(iv), d["r"], d["c"], d["av"], d["ah"], d["mode"], d["bp"],
                    idx=I)
        require(s == 0, "set-up returned %d", s)
        r = np.random.default_rng(d["s"])
        B, X = Buf(r.standard_normal(len(iv))), Buf(m)
        nb = np.linalg.norm(B.a)
        o = lib.nesta_opts(10.0 ** min(d["mu"], 0.), 10.0 ** d["tol"],
                           10.0 ** d["sr"] * nb, d["nc"], v)
        try:
            s, t = quiet_call(L, lambda: L.sh_nesta(0, m, X.p, len(iv), B.p, o.p))
        finally:
            L.sh_destroy(0)
        require(s == 0, "status %d", s)
        rec += [X.a]
        return t, 1
    f = c08.mkimg(d)
    n, m = f.shape
    F, U = Buf(f), Buf(n * m)
    _, t = quiet_call(L, lambda: L.l1c_breg_anistropic_TV(
        n, m, U.p, F.p, c08.weights(d, f), 1e-4, 20, d["jac"]))
    rec += [U.a]
    return t, 1


def check(c, L):
    k, v, w = c["k"], c["v"], c["w"]
    r1, r2 = [], []
    t, it = call(c, L, v, c["cv"], r1)
    t2, _ = call(c, L, w, 0, r2)
    for a, b in zip(r1, r2):
        require(a.tobytes() == b.tobytes(), "%s: the result depends on the verbosity", k)
    if k == "tv":
        require(t == "", "denoising printed %r", t[:80])
    if k in ("cg", "nesta"):
        for tt, vv in ((t, v), (t2, w)):
            if vv == 0:
                require(tt == "", "%s printed at verbosity 0: %r", k, tt[:80])
    if k in ("l1qc", "l1qc_dct"):
        for tt, vv, cc in ((t, v, c["cv"]), (t2, w, 0)):
            if vv == 0 and cc == 0:
                # a warning may appear, reports may not
                require(tt == "" or WARN.search(tt), "%s printed at verbosity 0: %r", k,
                        tt[:80])
                require(not re.search(r"LB iter|Newton-iter +\||Total Log-Barrier|"
                                      r"total-newton-iter", tt), "%s reported at verbosity "
                        "0: %r", k, tt[:80])
    if k == "cg" and v > 0:
        # one report for every v-th iteration
        its = [int(x) for x in re.findall(r"^\s*(\d+),", t, re.M)]
        require(all(i % v == 0 for i in its), "cg at verbosity %d reported iterations %r", v,
                its[:10])
        require(its == list(range(v, v * len(its) + 1, v)), "cg at verbosity %d reported "
                "iterations %r", v, its[:10])
        require(len(its) == int(it) // v, "cg made %d iterations but reported %d at "
                "verbosity %d", it, len(its), v)
    if k == "nesta" and v > 0:
        require(t.count("Starting nesta") == c["c"]["nc"], "%d continuation steps reported, "
                "%d made", t.count("Starting nesta"), c["c"]["nc"])
        t1 = t if v == 1 else call(c, L, 1, 0, [])[0]
        for part, p1 in zip(t.split("Starting nesta")[1:], t1.split("Starting nesta")[1:]):
            its, all1 = ([int(x) for x in re.findall(r"^(\d+)\s+\S+\s+\S+\s*$", q, re.M)]
                         for q in (part, p1))
            require(all1 and all1 == list(range(1, len(all1) + 1)), "nesta at verbosity 1 "
                    "reported iterations %r", all1[:10])
            require(its == list(range(v, len(all1) + 1, v)), "nesta at verbosity %d "
                    "reported iterations %r of %d", v, its[:10], len(all1))
    if k in ("l1qc", "l1qc_dct") and v > 0 and r1[1][3] == 0:
        require(t != "", "%s printed nothing at verbosity %d", k, v)
        parts = re.split(r"LB iter: (\d+)", t)
        lb = [int(x) for x in parts[1::2]]
        require(lb == list(range(1, len(lb) + 1)), "%s reported barrier iterations %r", k, lb)
        ask = c["c"]["o"].get("lbiter", 0)
        require(not ask or len(lb) == ask, "%s: %d barrier iterations reported, %d asked for",
                k, len(lb), ask)
        total, made = r1[1][1], 0
        require(total >= 0 and (lb or total == 0), "%s: no barrier iteration reported, %d "
                "Newton iterations made", k, total)
        for part in parts[0::2]:
            rows = [int(x) for x in re.findall(
                r"^ +(\d+)(?: +[-+\d.einfa]+){4} +\d+ +\d+ +[-+\d.einfa]+ *$", part, re.M)]
            require(rows == list(range(1, len(rows) + 1)), "%s reported Newton iterations %r",
                    k, rows)
            made += len(rows)
        if v == 1:
            require(made == 0, "%s reported Newton iterations at verbosity 1", k)
        else:
            require(total - len(lb) <= made <= total, "%s reported %d of %d Newton "
                    "iterations at verbosity %d", k, made, total, v)
    return dict(nt=bool(t) or v == 0, labels=["%s v=%d" % (k, min(v, 3))])


# ------------------------------------------------------------------ replacements
def check_seq(c, L):
    cur = L.sh_log_replace(0)
    require(cur == 0, "the print function is not the C library's at the start")
    for w in c["seq"]:
        old = L.sh_log_replace(w)
        require(old == cur, "replacing the print function returned number %d, expected %d",
                old, cur)
        cur = w
        require(L.sh_log_current() == w, "the new print function is not in effect")
        L.sh_log_reset()
        # something that always prints: a line search that fails
        F = Buf(np.ones(4))
        A, b = Buf(np.eye(4) * 2), Buf(np.ones(4))
        W = [Buf(4) for _ in range(5)]
        import ctypes
        wp = (ctypes.c_void_p * 5)(*[q.p.value for q in W])
        out = Buf(5)
        with Stdout(L) as o:
            L.sh_cg(4, F.p, b.p, A.p, None, wp, 1e-30, 3, 1, 0, out.p)
        require((o.text != "") == (w == 0), "print function %d: %d bytes on the standard "
                "output", w, len(o.text))
        require((L.sh_log_calls() > 0) == (w == 1), "print function %d: the recorder got %d "
                "calls", w, L.sh_log_calls())
    L.sh_log_replace(0)
    return len(c["seq"]) > 1


seqs = st.lists(st.integers(0, 2), min_size=1, max_size=12).map(lambda s: dict(seq=s))

TESTS = [Test("solvers", cases(), check, variant="wrap", quick=40000, thorough=5 * 10 ** 5,
              shards=7, cap=28, cap_thorough=400, chunk=60),
         Test("replace", seqs, check_seq, variant="wrap", quick=5000, thorough=10 ** 5,
              shards=1, cap=20, cap_thorough=100)]
