"""C18: the Python functions give what the C library gives for the same data, whatever the
layout of the arguments, leave those alone and give all memory back."""
import ctypes
import gc
import importlib.util
import os
import sys
import weakref

import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = one call of l1qc_dct, nesta_dctTV or breg_anistropic_TV of the Python module "
        "with generated data, argument layout (dtype, byte order, strides, lists, read-only "
        "arrays), a subset of the options by position or by keyword, or one thing wrong "
        "with it; compared with the C call on the same numbers; non-trivial when the call "
        "succeeded with non-zero data, or was expected to be refused")
ASSUMPTIONS = ["index arrays of a type that does not fit a C int without loss may be refused "
               "or converted",
               "the C functions themselves are the business of the other properties"]

_mod = None


def module(L):
    global _mod
    if _mod is None:
        p = os.path.join(L.info["dir"], "interfaces", "python", "_l1cPy_module.so")
        spec = importlib.util.spec_from_file_location("_l1cPy_module", p)
        _mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_mod)
    return _mod


BFORMS = ["f8", "f8", "list", "tuple", "strided", "reversed", "big", "f4", "int", "ro",
          "unaligned"]
IFORMS = ["i4", "i4", "list", "i8", "i2", "strided", "reversed", "big", "ro", "tuple"]
FFORMS = ["C", "C", "F", "T", "strided", "f4", "int", "list", "ro", "big", "neg"]

L1_DEF = dict(epsilon=.01, mu=10., lbtol=1e-3, newton_tol=1e-3, newton_max_iter=50,
              verbose=0, l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200, dct_mode=1)
L1_ORDER = list(L1_DEF)
N_DEF = dict(alpha_v=0., alpha_h=0., sigma=.01, mu=1e-5, tol=1e-5, n_continue=5, verbose=5,
             dct_mode=1, bp_mode=1)
N_ORDER = list(N_DEF)
B_DEF = dict(mu=10., tol=.001, max_iter=1000, max_jac_iter=1)
B_ORDER = list(B_DEF)
DEFS = dict(l1qc=(L1_DEF, L1_ORDER), nesta=(N_DEF, N_ORDER), breg=(B_DEF, B_ORDER))

VALUES = dict(
    l1qc=dict(epsilon=st.floats(1e-3, 1.), mu=st.floats(3., 40.),
              lbtol=st.sampled_from([1e-1, 1e-2, 1e-3]),
              newton_tol=st.sampled_from([1e-2, 1e-3, 1e-4]),
              newton_max_iter=st.integers(1, 50), verbose=st.integers(0, 2),
              l1_tol=st.sampled_from([0., 1e-5, 1e-2]),
              cgtol=st.sampled_from([1e-6, 1e-8, 1e-10]), cgmaxiter=st.integers(5, 200),
              dct_mode=st.sampled_from([1, 2, 2])),
    nesta=dict(alpha_v=st.sampled_from([0., .5, 1.]), alpha_h=st.sampled_from([0., .3, 2.]),
               sigma=st.floats(1e-3, 1.), mu=st.sampled_from([1e-2, 1e-3, 1e-4]),
               tol=st.sampled_from([1e-2, 1e-3, 1e-4]), n_continue=st.integers(1, 6),
               verbose=st.integers(0, 3), dct_mode=st.sampled_from([1, 2, 2]),
               bp_mode=st.sampled_from([1, 2])),
    breg=dict(mu=st.floats(.3, 30.), tol=st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4]),
              max_iter=st.integers(1, 300), max_jac_iter=st.integers(1, 5)))

WRONG = ["dct_mode", "bp_mode", "bndim", "indim", "size", "index_hi", "index_neg", "index_last",
         "negdims", "keyword", "missing", "empty", "string", "short", "toomany", "nulldim"]
WRONG_BREG = ["ndim1", "ndim3", "short", "keyword", "missing", "string", "scalar"]


@st.composite
def cases(draw, wrong=False):
    fn = draw(st.sampled_from(["l1qc", "nesta", "breg"]))
    d, order = DEFS[fn]
    V = VALUES[fn]
    npos = draw(st.one_of(st.just(0), st.integers(0, len(order))))
    kw = {}
    for i, k in enumerate(order):
        if i < npos or draw(st.booleans()):
            kw[k] = draw(V[k])
    if fn == "nesta":
        # keep the run short: the defaults are tried often enough as it is
        if draw(st.integers(0, 3)):
            kw.setdefault("tol", draw(V["tol"]))
            kw.setdefault("mu", draw(V["mu"]))
        tv = kw.get("alpha_v", 0) > 0 or kw.get("alpha_h", 0) > 0
        if tv and kw.get("bp_mode") == 2:
            kw["bp_mode"] = 1
    r, c = draw(gen.image(12, 80, 3))
    if fn != "breg" and not wrong and not (kw.get("alpha_v") or kw.get("alpha_h")):
        r, c = draw(gen.image(12, 80, 1))
    if not wrong and draw(st.integers(0, 39)) == 0 and (
            fn == "breg" or kw.get("tol") or kw.get("lbtol")):
        r, c = draw(st.tuples(st.integers(3, 90), st.integers(3, 90)).filter(
            lambda t: t[0] * t[1] <= (4000 if fn != "l1qc" else 600)))
    return dict(fn=fn, r=r, c=c, npos=npos, kw=kw, idx=draw(gen.idx()),
                s=draw(st.integers(0, 10 ** 6)), sc=draw(st.sampled_from([1., 1., .1, 3.])),
                bf=draw(st.sampled_from(BFORMS)), jf=draw(st.sampled_from(IFORMS)),
                ff=draw(st.sampled_from(FFORMS)), dims=draw(st.sampled_from(["int", "np"])),
                wrong=draw(st.sampled_from(WRONG_BREG if fn == "breg" else WRONG))
                if wrong else None)


def form1(v, f, dt):
    """a 1-D argument in the wanted layout; -> (object, array whose bytes must stay)"""
    if f == "list":
        return v.tolist(), None
    if f == "tuple":
        return tuple(v.tolist()), None
    if f in ("strided", "reversed"):
        big = np.full(2 * len(v) + 3, 7, dtype=dt)
        a = big[1:1 + 2 * len(v):2]
        if f == "reversed":
            a = big[len(v):0:-1] if len(v) else big[:0]
        a[:] = v
        return a, big
    if f == "big":
        a = v.astype(np.dtype(dt).newbyteorder(">"))
        return a, a
    if f == "ro":
        a = v.astype(dt)
        a.flags.writeable = False
        return a, a
    if f == "unaligned":
        raw = np.zeros(v.nbytes + 9, dtype=np.uint8)
        a = raw[1:1 + v.nbytes].view(dt)
        a[:] = v
        return a, raw
    a = v.astype({"f4": np.float32, "int": np.int64, "i4": np.int32, "i8": np.int64,
                  "i2": np.int16, "f8": np.float64}[f])
    return a, a


def form2(v, f):
    r, c = v.shape
    if f == "list":
        return v.tolist(), None
    if f == "F":
        a = np.asfortranarray(v)
        return a, a
    if f == "T":
        a = np.ascontiguousarray(v.T)
        return a.T, a
    if f == "strided":
        big = np.full((r + 2, 2 * c + 1), 9.)
        a = big[1:r + 1, 1::2]
        a[:] = v
        return a, big
    if f == "neg":
        a = np.ascontiguousarray(v[::-1, ::-1])
        return a[::-1, ::-1], a
    if f == "ro":
        a = v.copy()
        a.flags.writeable = False
        return a, a
    a = v.astype({"C": np.float64, "f4": np.float32, "int": np.int64, "big": ">f8"}[f])
    return a, a


class Data:
    def __init__(self, c):
        self.c = c
        r = np.random.default_rng(c["s"])
        m = c["r"] * c["c"]
        self.m = m
        self.iv = gen.mkidx(c["idx"], m)
        n = len(self.iv)
        img = np.add.outer(np.sin(np.arange(c["r"]) / 3.), np.cos(np.arange(c["c"]) / 2.))
        img = (img + .3 * r.standard_normal((c["r"], c["c"]))) * c["sc"]
        ff = c["ff"]
        if c["fn"] == "breg":
            if ff == "f4":
                img = img.astype(np.float32).astype(float)
            elif ff == "int":
                img = np.round(img * 10)
        b = img.ravel()[self.iv]
        if c["bf"] == "f4":
            b = b.astype(np.float32).astype(float)
        elif c["bf"] == "int":
            b = np.round(b * 5)
        self.img, self.b = img, b

    def args(self):
        c = self.c
        wrong = c["wrong"]
        opt = dict(c["kw"])
        if c["fn"] == "breg":
            img = self.img
            if wrong == "short":
                img = img[:2] if c["s"] % 2 else img[:, :2]
            f, raw = form2(img, c["ff"])
            keep = [raw]
            if wrong == "ndim1":
                f = img.ravel().copy()
            elif wrong == "ndim3":
                f = np.zeros((3, 4, 5))
            elif wrong == "scalar":
                f = 5
            elif wrong == "string":
                f = "image"
            req = [f]
        else:
            iv, b = self.iv, self.b
            r, cc = c["r"], c["c"]
            if wrong == "index_hi":
                iv = iv.copy()
                iv[c["s"] % len(iv)] = self.m + c["s"] % 5 * 100
            elif wrong == "index_neg":
                iv = iv.copy()
                iv[c["s"] % len(iv)] = -1 - c["s"] % 3
            elif wrong == "index_last":
                iv = iv.copy()
                iv[-1] = self.m
            elif wrong == "size":
                if c["s"] % 2:
                    b = np.append(b, 1.)
                else:
                    iv = np.append(iv, np.int32(0))
            elif wrong == "empty":
                iv, b = iv[:0], b[:0]
            elif wrong == "toomany":
                k = self.m + 1
                iv, b = np.arange(k, dtype=np.int32) % self.m, np.ones(k)
            B, kb = form1(b, c["bf"], np.float64)
            J, kj = form1(iv, c["jf"], np.int32)
            keep = [kb, kj]
            if wrong == "bndim":
                B = b.reshape(1, -1)
            elif wrong == "indim":
                J = iv.reshape(-1, 1)
            elif wrong == "string":
                J = "index"
            elif wrong == "negdims":
                r, cc = -r, -cc
            elif wrong == "nulldim":
                r = 0
            elif wrong == "short" and c["fn"] == "nesta":  # TV needs 3 rows and columns
                r, cc = (1, self.m) if c["s"] % 2 else (self.m, 1)
                opt["alpha_h" if c["s"] % 4 < 2 else "alpha_v"] = .5
            if c["dims"] == "np":
                r, cc = np.int64(r), np.int32(cc)
            req = [r, cc, B, J]
        if wrong == "dct_mode":
            opt["dct_mode"] = [0, 3, -1, 7][c["s"] % 4]
        if wrong == "bp_mode" and c["fn"] == "nesta":
            opt["bp_mode"] = [0, 3, -1, 9][c["s"] % 4]
        order = DEFS[c["fn"]][1]
        pos = []
        if not wrong:
            for k in order[:c["npos"]]:
                pos.append(opt.pop(k))
        if wrong == "keyword":
            opt["no_such_option"] = 1
        if wrong == "missing":
            req = req[:-1]
        return req + pos, opt, [k for k in keep if k is not None]


NAME = dict(l1qc="l1qc_dct", nesta="nesta_dctTV", breg="breg_anistropic_TV")


def direct(c, D, L):
    """-> (ok, image, extra) from the C interface"""
    d = dict(DEFS[c["fn"]][0], **c["kw"])
    m = D.m
    if c["fn"] == "breg":
        F, U = Buf(D.img.ravel()), Buf(m)
        s = L.l1c_breg_anistropic_TV(c["r"], c["c"], U.p, F.p, d["mu"], d["tol"],
                                     d["max_iter"], d["max_jac_iter"])
        return s == 0, U.a.reshape(c["r"], c["c"]).copy(), None
    I = lib.ibuf(D.iv)
    B = Buf(D.b)
    X = Buf(np.zeros(m))
    if c["fn"] == "l1qc":
        O = lib.l1qc_opts(epsilon=d["epsilon"], mu=d["mu"], lbtol=d["lbtol"],
                          newton_tol=d["newton_tol"], newton_max_iter=d["newton_max_iter"],
                          verbose=d["verbose"], l1_tol=d["l1_tol"], cg_tol=d["cgtol"],
                          cg_maxiter=d["cgmaxiter"], dct_mode=d["dct_mode"])
        res = Buf(np.zeros(4))
        s = L.sh_l1qc_dct(c["r"], c["c"], X.p, len(D.iv), B.p, I.p, O.p, res.p)
        return s == 0, X.a.reshape(c["r"], c["c"]).copy(), dict(
            l1=res.a[0], total_newton_iter=int(res.a[1]), total_cg_iter=int(res.a[2]),
            status=int(res.a[3]) | s)
    s = L.setup(3, lib.TV, len(D.iv), c["r"], c["c"], d["alpha_v"], d["alpha_h"],
                d["dct_mode"], d["bp_mode"], idx=I)
    require(s == 0, "the C set-up refused a valid problem (status %d)", s)
    try:
        O = lib.nesta_opts(d["mu"], d["tol"], d["sigma"], d["n_continue"], d["verbose"])
        s = L.sh_nesta(3, m, X.p, len(D.iv), B.p, O.p)
        Z = Buf(np.zeros(m))
        L.sh_apply(3, lib.OPS["Mx"], X.p, Z.p)
    finally:
        L.sh_destroy(3)
    return s == 0, Z.a.reshape(c["r"], c["c"]).copy(), s


def call(f, pos, kw):
    """-> (result, exception)"""
    try:
        return f(*pos, **kw), None
    except Exception as e:
        return None, type(e)


def clean(L, live, plans, what):
    require(L.ft_badfree() == 0, "%s: %d invalid or double frees", what, L.ft_badfree())
    require(L.ft_plans() == plans and L.ft_planbad() == 0, "%s: %d FFTW plans leaked", what,
            L.ft_plans() - plans)
    require(L.ft_live() == live, "%s: %d memory blocks leaked", what, L.ft_live() - live)


def refs(pos):
    return [sys.getrefcount(p) for p in pos
            if isinstance(p, (np.ndarray, list, tuple))]


def check(c, L):
    M = module(L)
    L.ft_reset()
    D = Data(c)
    pos, kw, keep = D.args()
    before = [k.tobytes() for k in keep]
    live, plans = L.ft_live(), L.ft_plans()
    f = getattr(M, NAME[c["fn"]])
    rc0 = refs(pos)
    out, exc = call(f, pos, kw)
    rc1 = refs(pos)
    require(rc0 == rc1, "reference counts of the arguments changed: %r -> %r", rc0, rc1)
    for k, w in zip(keep, before):
        require(k.tobytes() == w, "an argument array was modified")
    clean(L, live, plans, NAME[c["fn"]])
    lab = [c["fn"], "b:" + c["bf"] if c["fn"] != "breg" else "f:" + c["ff"]]
    if c["wrong"]:
        return judge_wrong(c, out, exc)
    lossy = c["fn"] != "breg" and c["jf"] == "i8"
    ok, img, extra = direct(c, D, L)
    if exc is not None:
        if lossy and exc is RuntimeError:
            return dict(nt=False, labels=lab + ["int64 index refused"])
        require(not ok and c["fn"] != "nesta", "valid arguments raised %s", exc)
        require(exc in (RuntimeError, MemoryError), "solver failure raised %s", exc)
        return dict(nt=False, labels=lab + ["solver failed"])
    if c["fn"] == "breg":
        res = out
    else:
        require(isinstance(out, tuple) and len(out) == 2, "result is not a pair")
        res, info = out
        if c["fn"] == "l1qc":
            require(ok, "the C call fails (%r), the Python call does not", extra)
            require(isinstance(info, dict) and set(info) == set(extra),
                    "result fields %r", sorted(info))
        else:
            require(type(info) is int and info == extra, "status %r, the C call gives %r",
                    info, extra)
    require(isinstance(res, np.ndarray) and res.dtype == np.float64
            and res.shape == (c["r"], c["c"]), "result is %r %r, expected a %dx%d image",
            getattr(res, "dtype", None), getattr(res, "shape", None), c["r"], c["c"])
    require(res.flags.c_contiguous and res.flags.writeable and res.flags.owndata,
            "result array has flags %s", res.flags)
    if ok:
        sc = np.max(np.abs(img)) + np.max(np.abs(D.b), initial=0) + 1e-300
        e = np.max(np.abs(res - img)) / sc
        require(e <= 1e-6, "image differs from the C result by %r of its size (at %r)", e,
                tuple(int(t) for t in np.unravel_index(np.argmax(np.abs(res - img)),
                                                       img.shape)))
    if c["fn"] == "l1qc":
        require(abs(info["l1"] - extra["l1"]) <= 1e-6 * (abs(extra["l1"]) + 1e-300),
                "l1 %r, the C call gives %r", info["l1"], extra["l1"])
        for k in ("total_newton_iter", "total_cg_iter", "status"):
            # rounding (array alignment) may shift an iteration count by a little
            require(type(info[k]) is int and abs(info[k] - extra[k])
                    <= (0 if k == "status" else 2 + .1 * extra[k]),
                    "%s = %r, the C call gives %r", k, info[k], extra[k])
    # the result is ours alone
    n = sys.getrefcount(res) - 3  # res, out and the argument of the call
    require(n == 0, "the result array has %d references too many", n)
    w = weakref.ref(res)
    if c["fn"] == "l1qc":
        require(sys.getrefcount(info) == 3, "the result dictionary has references too many")
    del res, out
    require(w() is None, "the result array is never freed")
    # again: the same, and no memory kept
    out2, exc2 = call(f, pos, kw)
    require(exc2 is None, "the same call again raised %s", exc2)
    img2 = out2 if c["fn"] == "breg" else out2[0]
    if ok:
        require(np.max(np.abs(img2 - img)) <= 1e-6 * sc, "the same call again gives "
                "another image")
    del out2, img2
    clean(L, live, plans, "second call")
    opts = sorted(kw) + (["positional"] if len(pos) > 4 else [])
    return dict(nt=bool(np.any(D.b)) if c["fn"] != "breg" else True,
                labels=lab + ["i:" + c["jf"]] * (c["fn"] != "breg")
                + ["opt " + o for o in opts])


EXPECT = dict(dct_mode=ValueError, bp_mode=ValueError, bndim=IndexError, indim=IndexError,
              size=ValueError, toomany=ValueError, index_hi=RuntimeError,
              index_neg=RuntimeError, index_last=RuntimeError, keyword=TypeError,
              missing=TypeError, ndim1=IndexError, ndim3=IndexError, scalar=IndexError,
              short=ValueError)


def judge_wrong(c, out, exc):
    w = c["wrong"]
    if c["fn"] != "breg":
        if w in ("bp_mode", "short") and c["fn"] == "l1qc":
            return False
        if c["jf"] == "i8" and exc is RuntimeError:
            return False  # refused for another reason, allowed
    require(exc is not None, "%s: accepted", w)
    e = EXPECT.get(w) if w != "short" or c["fn"] == "breg" else RuntimeError
    if e:
        require(issubclass(exc, e), "%s: raised %s, expected %s", w, exc, e)
    return dict(nt=True, labels=[c["fn"] + " " + w])


def check_fault(c, L):
    """every allocation made on behalf of the call fails in turn"""
    M = module(L)
    L.ft_reset()
    D = Data(c)
    pos, kw, keep = D.args()
    f = getattr(M, NAME[c["fn"]])
    live, plans = L.ft_live(), L.ft_plans()
    rc0 = refs(pos)
    out, exc = call(f, pos, kw)
    if exc is not None:
        return False
    del out
    n = L.ft_count()
    for k in range(1, n + 1):
        for mode in (0, 1):
            what = "allocation %d of %d %s" % (k, n, "and all later ones fail" if mode
                                               else "fails")
            L.ft_reset()
            L.ft_arm(0 if mode else k, k if mode else 0)
            out, exc = call(f, pos, kw)
            L.ft_arm(0, 0)
            if exc is None:
                require(c["fn"] == "nesta" and out[1] != 0, "%s: no error", what)
            else:
                require(exc in (MemoryError, RuntimeError), "%s: raised %s", what, exc)
            del out
            clean(L, live, plans, what)
            require(refs(pos) == rc0, "%s: references to the arguments leaked", what)
    L.ft_reset()
    out, exc = call(f, pos, kw)
    require(exc is None, "the call fails after earlier faults (%s)", exc)
    return dict(nt=n > 0, labels=[c["fn"], "%s: %d faults" % (c["fn"], n)])


@st.composite
def fault_cases(draw):
    c = draw(cases())
    kw = c["kw"]
    if c["fn"] == "l1qc":
        kw.update(lbtol=.1, newton_max_iter=3, cgmaxiter=8)
    elif c["fn"] == "nesta":
        kw.update(tol=.1, mu=.1, n_continue=1)
    else:
        kw.update(max_iter=3)
    return c


PYT = dict(variant="wrap", python="/usr/bin/python3", targets=("l1c", "_l1cPy_module"))
TESTS = [
    Test("same", cases(), check, quick=8000, thorough=2 * 10 ** 5, shards=4, cap=40,
         cap_thorough=500, chunk=50, **PYT),
    Test("refused", cases(True), check, quick=3000, thorough=10 ** 5, shards=2, cap=25,
         cap_thorough=200, chunk=50, **PYT),
    Test("faults", fault_cases(), check_fault, quick=1500, thorough=10 ** 5, shards=2, cap=30,
         cap_thorough=300, chunk=50, **PYT),
]
