"""C19: the Octave/MATLAB functions give what the C library gives for the same image."""
import os
import select
import signal
import subprocess
import tempfile
import time

import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import Buf, Violation, require

LEVEL = "exploration"
RULE = ("case = one call, inside a long-lived Octave process, of l1qc_dct, nesta_dctTV or "
        "breg_anistropic_TV with a generated image or samples, row or column vectors, options "
        "made by the option functions from a subset of the names, or one thing wrong; "
        "compared with the C call on the same numbers; or the same call with each "
        "allocation failing in turn; non-trivial when the call succeeded with non-zero data "
        "or was expected to be refused")
ASSUMPTIONS = ["images are passed to the solvers in memory order: x(pix_idx) belongs to b",
               "Octave 8.4 stands for MATLAB",
               "fewer samples than pixels and at least two samples"]

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Octave:
    def __init__(self, info):
        self.info = info
        self.tmp = tempfile.mkdtemp(prefix="l1cm", dir=os.getcwd())
        d = info["dir"]
        env = dict(os.environ, LD_PRELOAD=info["fault"], OCTAVE_HISTFILE="/dev/null")
        ev = "addpath('%s','%s','%s');l1srv()" % (
            os.path.join(d, "interfaces", "mex"), d, os.path.join(HERE, "c"))
        self.p = subprocess.Popen(["octave-cli", "-qf", "--no-history", "--eval", ev],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=self.tmp,
                                  start_new_session=True)

    def run(self, code, inp=None, limit=60):
        """run one line; -> (error id or "", printed text, doubles written to out.bin)"""
        fi, fo = os.path.join(self.tmp, "in.bin"), os.path.join(self.tmp, "out.bin")
        np.ascontiguousarray(inp if inp is not None else [], dtype=float).tofile(fi)
        if os.path.exists(fo):
            os.unlink(fo)
        code = ("f=fopen('%s');d=fread(f,Inf,'double');fclose(f);%s" % (fi, code)).replace(
            "@OUT@", fo)
        assert "\n" not in code
        # fgetl looks one character ahead: give it a blank of the next line
        self.p.stdin.write((code + "\n ").encode())
        self.p.stdin.flush()
        buf = b""
        t0 = time.time()
        while True:
            r, _, _ = select.select([self.p.stdout], [], [], 1)
            if r:
                x = os.read(self.p.stdout.fileno(), 65536)
                if not x:
                    rc = self.p.wait()
                    raise Violation("the Octave process died (%s)" % (
                        "signal %d" % -rc if rc < 0 else "status %d" % rc))
                buf += x
                i = buf.rfind(b"\n@@")
                if i >= 0 and buf.endswith(b"\n") and buf.count(b"\n", i + 1) == 1:
                    err = buf[i + 3:-1].decode()
                    txt = buf[:i].decode(errors="replace")
                    break
            if time.time() - t0 > limit:
                self.close()
                raise Violation("the call did not return within %d s" % limit)
        out = np.fromfile(fo) if os.path.exists(fo) else np.zeros(0)
        return err, txt, out

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        self.p.wait()


_oct = None


def octave(L):
    global _oct
    if _oct is None or _oct.p.poll() is not None:
        _oct = Octave(L.info)
    return _oct


L1 = dict(epsilon=.1, mu=10, lbtol=1e-3, tau=0, lbiter=0, newton_tol=1e-3,
          newton_max_iter=50, verbose=2, l1_tol=1e-5, cgtol=1e-8, cgmaxiter=200,
          warm_start_cg=0, dct_mode=1)
NE = dict(sigma=.01, mu=1e-5, tol=1e-3, alpha_v=0, alpha_h=0, verbose=5, n_continue=5,
          bp_mode="analysis", dct_mode=1)
VAL = dict(
    l1qc=dict(epsilon=st.floats(1e-3, 1.), mu=st.floats(3., 40.),
              lbtol=st.sampled_from([1e-1, 1e-2, 1e-3]),
              newton_tol=st.sampled_from([1e-2, 1e-3, 1e-4]),
              newton_max_iter=st.integers(1, 50), verbose=st.integers(0, 2),
              l1_tol=st.sampled_from([0., 1e-5, 1e-2]),
              cgtol=st.sampled_from([1e-6, 1e-8, 1e-10]), cgmaxiter=st.integers(5, 200),
              warm_start_cg=st.sampled_from([0, 1, 2]), lbiter=st.integers(1, 4),
              dct_mode=st.sampled_from([1, 2, 2])),
    nesta=dict(alpha_v=st.sampled_from([0., .5, 1.]), alpha_h=st.sampled_from([0., .3, 2.]),
               sigma=st.floats(1e-3, 1.), mu=st.sampled_from([1e-2, 1e-3, 1e-4]),
               tol=st.sampled_from([1e-2, 1e-3, 1e-4]), n_continue=st.integers(1, 6),
               verbose=st.integers(0, 3), dct_mode=st.sampled_from([1, 2, 2]),
               bp_mode=st.sampled_from(["analysis", "synthesis"])))
WRONG = ["zero", "neg", "hi", "size", "toomany", "bsingle", "isingle", "bint", "bmat", "imat",
         "bempty", "nostruct", "nofield", "strfield", "dimneg", "dimvec", "few_in", "structarr"]
WRONG_N = WRONG + ["mode", "modenum", "few_out"]
WRONG_B = ["small", "vec", "scalar", "empty", "cube", "single", "muvec", "mustr", "few_in"]


@st.composite
def cases(draw, wrong=False):
    fn = draw(st.sampled_from(["l1qc", "nesta", "breg"]))
    r, c = draw(gen.image(12, 80, 3))
    d = dict(fn=fn, r=r, c=c, s=draw(st.integers(0, 10 ** 6)),
             sc=draw(st.sampled_from([1., 1., .1, 3.])), wrong=None)
    if fn == "breg":
        d.update(mu=draw(st.floats(.3, 30.)), it=draw(st.integers(1, 200)),
                 tol=draw(st.sampled_from([1e-1, 1e-2, 1e-3, 1e-4])))
        if wrong:
            d["wrong"] = draw(st.sampled_from(WRONG_B))
        elif draw(st.integers(0, 39)) == 0:
            d["r"], d["c"] = draw(st.integers(3, 60)), draw(st.integers(3, 60))
        return d
    V = VAL[fn]
    kw = {k: draw(V[k]) for k in V if draw(st.booleans())}
    if fn == "nesta":
        if draw(st.integers(0, 3)):
            kw.setdefault("mu", draw(V["mu"]))
        if (kw.get("alpha_v") or kw.get("alpha_h")) and kw.get("bp_mode") == "synthesis":
            kw["bp_mode"] = "analysis"
    if not wrong and not (kw.get("alpha_v") or kw.get("alpha_h")):
        d["r"], d["c"] = draw(gen.image(12, 80, 1))
        if d["r"] * d["c"] < 3:
            d["c"] = 3
    if not wrong and (kw.get("tol") or kw.get("lbtol")) and draw(st.integers(0, 39)) == 0:
        mx = 25 if fn == "l1qc" else 50
        d["r"], d["c"] = draw(st.integers(3, mx)), draw(st.integers(3, mx))
    if wrong:
        d["wrong"] = draw(st.sampled_from(WRONG_N if fn == "nesta" else WRONG))
    d.update(kw=kw, idx=draw(gen.idx()), shape=draw(st.sampled_from(["row", "col", "mix"])),
             nout=draw(st.sampled_from([1, 2])) if fn == "l1qc" else 2)
    return d


def data(c):
    r = np.random.default_rng(c["s"])
    img = np.add.outer(np.sin(np.arange(c["r"]) / 3.), np.cos(np.arange(c["c"]) / 2.))
    return (img + .3 * r.standard_normal(img.shape)) * c["sc"]


def octnum(v):
    return repr(float(v)) if not isinstance(v, str) else "'%s'" % v


def code(c):
    """-> (octave code, data vector, pieces)"""
    w = c["wrong"]
    img = data(c)
    if c["fn"] == "breg":
        F = "reshape(d,%d,%d)" % (c["r"], c["c"])
        mu = octnum(c["mu"])
        F = {"small": "rand(2,7)" if c["s"] % 2 else "rand(7,2)", "vec": "rand(1,9)",
             "scalar": "3", "empty": "[]", "cube": "rand(3,3,3)",
             "single": "single(%s)" % F}.get(w, F)
        mu = {"muvec": "[1 2]", "mustr": "'a'"}.get(w, mu)
        args = "F,%s,%s,%s" % (mu, octnum(c["tol"]), c["it"])
        if w == "few_in":
            args = "F,%s" % mu
        s = ("F=%s;F0=F;U=breg_anistropic_TV(%s);" % (F, args)
             + "f=fopen('@OUT@','w');fwrite(f,[isequal(F,F0);size(U)(:);U(:)],'double');"
             "fclose(f);")
        return s, img.ravel(order="F"), None
    m = c["r"] * c["c"]
    iv = gen.mkidx(c["idx"], m, 2)
    if len(iv) >= m:
        iv = iv[:m - 1]
    b = img.ravel(order="F")[iv]
    if w == "zero":
        iv = iv.copy()
        iv[c["s"] % len(iv)] = -1
    elif w == "neg":
        iv = iv.copy()
        iv[c["s"] % len(iv)] = -7
    elif w == "hi":
        iv = iv.copy()
        iv[c["s"] % len(iv)] = m + (c["s"] % 3) * 1000
    elif w == "size":
        b = np.append(b, 1.)
    elif w == "toomany":
        iv, b = np.arange(m), img.ravel(order="F")
    n, k = len(b), len(iv)
    B, P = "d(1:%d)" % n, "d(%d:%d)" % (n + 1, n + k)
    if c["shape"] in ("row", "mix"):
        B += "'"
    if c["shape"] == "row":
        P += "'"
    opt = "%s(%s)" % ("l1qc_dct_opts" if c["fn"] == "l1qc" else "nesta_opts", ",".join(
        "'%s',%s" % (a, octnum(v)) for a, v in sorted(c["kw"].items())))
    post = ""
    R, C = str(c["r"]), str(c["c"])
    if w == "bsingle":
        B = "single(%s)" % B
    elif w == "isingle":
        P = "int32(%s)" % P
    elif w == "bint":
        B = "int32(%s)" % B
    elif w == "bmat":
        B = "ones(2,%d)" % n
    elif w == "imat":
        P = "ones(2,%d)" % n
    elif w == "bempty":
        B = "[]"
    elif w == "nostruct":
        opt = "3"
    elif w == "nofield":
        post = "O=rmfield(O,'%s');" % (["mu", "verbose"][c["s"] % 2])
    elif w == "strfield":
        post = "O.mu='abc';"
    elif w == "structarr":
        post = "O=[O O];"
    elif w == "dimneg":
        R, C = "-" + R, "-" + C
    elif w == "dimvec":
        R = "[%s 1]" % R
    elif w == "mode":
        post = "O.bp_mode='%s';" % ["analysi", "syn", "Analysis", ""][c["s"] % 4]
    elif w == "modenum":
        post = "O.bp_mode=1;"
    name = "l1qc_dct" if c["fn"] == "l1qc" else "nesta_dctTV"
    nout = 1 if w == "few_out" else c["nout"]
    args = "%s,%s,B,P,O" % (R, C) if w != "few_in" else "%s,%s,B,P" % (R, C)
    lhs = "x" if nout == 1 else "[x,S]"
    if nout == 1:
        tail = "[]"
    elif c["fn"] == "l1qc":
        tail = "[numel(fieldnames(S));S.l1;S.total_newton_iter;S.total_cg_iter;S.status]"
    else:
        tail = "[S]"
    s = ("B=%s;P=%s;O=%s;%sB0=B;P0=P;O0=O;%s=%s(%s);" % (B, P, opt, post, lhs, name, args)
         + "f=fopen('@OUT@','w');fwrite(f,[isequal(B,B0)&&isequal(P,P0)&&isequal(O,O0);"
         "size(x)(:);x(:);%s],'double');fclose(f);" % tail)
    return s, np.concatenate([b, iv + 1.]), (iv, b)


def direct(c, L, parts):
    """list of acceptable (image memory order, extra)"""
    img = data(c)
    L.sh_log_replace(2)
    try:
        if c["fn"] == "breg":
            out = []
            for rr, cc, im in ((c["c"], c["r"], img.T), (c["r"], c["c"], img)):
                F, U = Buf(np.ascontiguousarray(im).ravel()), Buf(img.size)
                s = L.l1c_breg_anistropic_TV(rr, cc, U.p, F.p, c["mu"], c["tol"], c["it"], 1)
                require(s == 0, "the C call failed (%d)", s)
                u = U.a.reshape(rr, cc)
                out.append(u.T.copy() if im is not img else u.copy())
            return out, None
        iv, b = parts
        m = c["r"] * c["c"]
        I, B, X = lib.ibuf(iv), Buf(b), Buf(np.zeros(m))
        if c["fn"] == "l1qc":
            d = dict(L1, **c["kw"])
            O = lib.l1qc_opts(epsilon=d["epsilon"], mu=d["mu"], lbtol=d["lbtol"],
                              lbiter=d["lbiter"], newton_tol=d["newton_tol"],
                              newton_max_iter=d["newton_max_iter"], l1_tol=d["l1_tol"],
                              cg_tol=d["cgtol"], cg_maxiter=d["cgmaxiter"],
                              warm_start_cg=d["warm_start_cg"], dct_mode=d["dct_mode"])
            res = Buf(np.zeros(4))
            s = L.sh_l1qc_dct(c["r"], c["c"], X.p, len(iv), B.p, I.p, O.p, res.p)
            require(s == 0, "the C call failed (%d)", s)
            return [X.a.copy()], res.a.copy()
        d = dict(NE, **c["kw"])
        s = L.setup(3, lib.TV, len(iv), c["r"], c["c"], d["alpha_v"], d["alpha_h"],
                    d["dct_mode"], 1 if d["bp_mode"] == "analysis" else 2, idx=I)
        require(s == 0, "the C set-up refused a valid problem (%d)", s)
        O = lib.nesta_opts(d["mu"], d["tol"], d["sigma"], d["n_continue"], 0)
        s = L.sh_nesta(3, m, X.p, len(iv), B.p, O.p)
        Z = Buf(np.zeros(m))
        L.sh_apply(3, lib.OPS["Mx"], X.p, Z.p)
        L.sh_destroy(3)
        return [Z.a.copy()], s
    finally:
        L.sh_log_replace(0)


def accounting(o, base, what):
    e, t, q = o.run("f=fopen('@OUT@','w');fwrite(f,ftq(2),'double');fclose(f);")
    require(q[2] == 0, "%s: %d invalid or double frees", what, q[2])
    require(q[3] == base[3] and q[4] == 0, "%s: FFTW plans leaked or destroyed twice", what)
    require(q[1] == base[1], "%s: %d memory blocks leaked", what, q[1] - base[1])
    return q


def start(o):
    return o.run("f=fopen('@OUT@','w');fwrite(f,ftq(0),'double');fclose(f);")[2]


def check(c, L):
    o = octave(L)
    base = start(o)
    s, inp, parts = code(c)
    err, txt, out = o.run(s, inp)
    if c["wrong"]:
        require(err.startswith("l1c:"), "%s: %s", c["wrong"],
                "accepted" if not err else "unexpected error " + err)
        accounting(o, base, c["fn"])
        return dict(nt=True, labels=["%s %s" % (c["fn"], c["wrong"])])
    require(err == "", "valid arguments were refused: %s", err)
    require(len(out) > 3 and out[0] == 1, "an argument was modified")
    accounting(o, base, c["fn"])
    r, cc = int(out[1]), int(out[2])
    imgs, extra = direct(c, L, parts)
    m = c["r"] * c["c"]
    x = out[3:3 + m]
    if c["fn"] == "l1qc":
        require((r, cc) == (m, 1), "result is %dx%d, expected %dx1", r, cc, m)
        v = 0 if "verbose" in c["kw"] and c["kw"]["verbose"] == 0 else 1
    else:
        require((r, cc) == (c["r"], c["c"]), "result is %dx%d for a %dx%d image", r, cc,
                c["r"], c["c"])
        v = 1
    if c["fn"] == "breg":
        x = x.reshape(c["r"], c["c"], order="F")
    elif v:
        # the functions report through Octave's own printing
        want = c["kw"].get("verbose", 2 if c["fn"] == "l1qc" else 5) > 0
        require(want == ("Input Parameters" in txt) or not want,
                "verbose > 0 printed nothing through Octave")
    best = min(np.max(np.abs(x - i)) / (np.max(np.abs(i)) + c["sc"] * 1e-3) for i in imgs)
    require(best <= 1e-6, "the result differs from that of the C library by %r of its size",
            best)
    rest = out[3 + m:]
    if c["fn"] == "l1qc" and c["nout"] == 2:
        require(rest[0] == 4, "%d result fields", rest[0])
        require(abs(rest[1] - extra[0]) <= 1e-6 * (abs(extra[0]) + 1e-300),
                "l1 = %r, the C call gives %r", rest[1], extra[0])
        for k, nm in ((1, "total_newton_iter"), (2, "total_cg_iter"), (3, "status")):
            require(abs(rest[k + 1] - extra[k]) <= (0 if k == 3 else 2 + .1 * extra[k]),
                    "%s = %r, the C call gives %r", nm, rest[k + 1], extra[k])
    elif c["fn"] == "nesta":
        require(rest[0] == extra, "status %r, the C call gives %r", rest[0], extra)
    sh = "square" if c["r"] == c["c"] else "rect"
    return dict(nt=True, labels=[c["fn"], c["fn"] + " " + sh]
                + ["%s %s" % (c["fn"], k) for k in c.get("kw", {})])


def check_opts(c, L):
    """the option functions return what was given and the documented defaults"""
    o = octave(L)
    args = ",".join("'%s',%s" % (k, repr(v) if isinstance(v, str) else "%.17g" % v)
                    for k, v in c["kw"].items())
    fn, D = ("l1qc_dct_opts", L1) if c["fn"] == "l1qc" else ("nesta_opts", NE)
    want = dict(D, **c["kw"])
    names = sorted(want)
    expr = ";".join("s.%s" % k if k != "bp_mode" else "double(strcmp(s.bp_mode,'%s'))"
                    % want[k] for k in names)
    err, _, out = o.run("s=%s(%s);v=[%s];f=fopen('@OUT@','w');fwrite(f,[numel(fieldnames(s));"
                        "v(:)],'double');fclose(f);" % (fn, args, expr))
    require(err == "", "%s(%s) failed: %s", fn, args, err)
    require(len(out) == len(names) + 1, "%s: an option is not a scalar", fn)
    for k, v in zip(names, out[1:]):
        w = 1 if k == "bp_mode" else want[k]
        require(v == w, "%s(%s): %s is %r, expected %r", fn, args, k, v.item(), w)
    return dict(nt=True, labels=[fn])


def check_fault(c, L):
    o = octave(L)
    s, inp, parts = code(c)
    base = start(o)
    err, _, out = o.run(s, inp)
    require(err == "", "valid arguments were refused: %s", err)
    n = int(accounting(o, base, c["fn"])[0])
    for k in range(1, n + 1):
        for mode in (0, 1):
            what = "allocation %d of %d %s" % (k, n, "and all later ones fail" if mode
                                               else "fails")
            e, _, out = o.run("ftq(0);ftq(1,%d,%d);%s" % (0 if mode else k, k if mode else 0, s),
                              inp)
            o.run("ftq(1,0,0);")
            if e == "":
                ok = False
                if c["fn"] == "l1qc" and c["nout"] == 2:
                    ok = out[-1] != 0
                elif c["fn"] == "nesta":
                    ok = out[-1] != 0
                require(ok, "%s: no error", what)
            else:
                require(e.startswith("l1c:"), "%s: the error is not the function's own (%s)",
                        what, e)
            accounting(o, base, what)
    return dict(nt=n > 0, labels=["%s: %d faults" % (c["fn"], n)])


@st.composite
def fault_cases(draw):
    c = draw(cases())
    if c["fn"] == "breg":
        c["it"] = 3
    else:
        c["nout"] = 2
        c["kw"].update(dict(lbtol=.1, newton_max_iter=3, cgmaxiter=8) if c["fn"] == "l1qc"
                       else dict(tol=.1, mu=.1, n_continue=1))
    return c


MX = dict(variant="wrap", mex=True,
          targets=("l1c", "l1qc_dct", "nesta_dctTV", "breg_anistropic_TV"))
TESTS = [
    Test("same", cases(), check, quick=6000, thorough=2 * 10 ** 5, shards=4, cap=40,
         cap_thorough=500, chunk=50, **MX),
    Test("refused", cases(True), check, quick=3000, thorough=10 ** 5, shards=2, cap=25,
         cap_thorough=200, chunk=50, **MX),
    Test("options", cases().filter(lambda c: c["fn"] != "breg"), check_opts, quick=1500,
         thorough=2 * 10 ** 4, shards=1, cap=25, cap_thorough=100, chunk=50, **MX),
    Test("faults", fault_cases(), check_fault, quick=1000, thorough=10 ** 5, shards=2, cap=30,
         cap_thorough=300, chunk=50, **MX),
]
