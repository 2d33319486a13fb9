"""Shared by the operator properties."""
import numpy as np

from vf import gen, lib, ref
from vf.lib import Buf, Violation, require


def build_case(L, slot, c):
    """Set the operator set of case c up in a slot; returns (ref.Ops, keepalive)."""
    kind = c["kind"]
    if kind == lib.MAT:
        n, m = c["n"], c["m"]
        A = Buf(gen.mkvec(c["A"], n * m), name="matrix A")
        st = L.setup(slot, kind, n, m, 1, A=A)
        require(st == 0, "matrix setup of a valid %dx%d matrix returned %d", n, m, st)
        R = ref.Ops(kind, m, 1, None, A=A.a.reshape(n, m))
        keep = A
    else:
        mr, mc = c["mrow"], c["mcol"]
        iv = gen.mkidx(c["idx"], mr * mc)
        I = lib.ibuf(iv, "pix_idx")
        st = L.setup(slot, kind, len(iv), mr, mc, c.get("av", 0.), c.get("ah", 0.),
                     c.get("dct_mode", 1), c.get("bp", 1), idx=I)
        require(st == 0, "setup of a valid operator returned %d", st)
        R = ref.Ops(kind, mr, mc, iv, c.get("dct_mode", 1), c.get("av", 0.),
                    c.get("ah", 0.), c.get("bp", 1))
        keep = I
    return R, keep


def check_dims(L, slot, R):
    d = L.dims(slot)
    want = dict(n=R.n, q=R.q, m=R.m, p=R.p)
    require(d == want, "reported dimensions %r, expected %r", d, want)


def close(out, want, scale, what, rel=4e-14):
    if want.size == 0:
        return
    tol = rel * scale + 1e-290
    if not np.all(np.isfinite(out)):
        raise Violation("%s: non-finite output for finite input" % what)
    e = np.abs(out - want)
    i = int(np.argmax(e))
    if not e[i] <= tol:
        raise Violation("%s: element %d is %r, expected %r (error %.3g, tolerance %.3g)"
                        % (what, i, out[i].item(), want[i].item(), e[i], tol))


def check_op(L, slot, R, op, x, tag=""):
    ni, no = R.sizes()[op]
    x = x[:ni]
    out = L.apply(slot, op, x, no)
    want = R.ref(op, x)
    scale = R.amp(op) * np.linalg.norm(x) * (4 + np.log2(max(2, R.mt if R.kind != 4
                                                            else R.m)))
    close(out, want, scale, op + tag)
    return out
