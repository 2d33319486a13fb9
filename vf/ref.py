"""Reference models (numpy / scipy only; nothing from the library under test)."""
import numpy as np
import scipy.fft as sf


def is1d(mrow, mcol, dct_mode):
    return mcol == 1 or mrow == 1 or dct_mode == 1


def idct(x, mrow, mcol, oned):
    if oned:
        return sf.idct(x, norm="ortho")
    return sf.idctn(x.reshape(mrow, mcol), norm="ortho").ravel()


def dct(x, mrow, mcol, oned):
    if oned:
        return sf.dct(x, norm="ortho")
    return sf.dctn(x.reshape(mrow, mcol), norm="ortho").ravel()


def Dx(n, m, a, x):
    X = x.reshape(n, m)
    o = np.zeros((n, m))
    o[:, :-1] = a * (X[:, 1:] - X[:, :-1])
    return o.ravel()


def DxT(n, m, a, y):
    Y = y.reshape(n, m)
    o = np.zeros((n, m))
    o[:, :-1] -= Y[:, :-1]
    o[:, 1:] += Y[:, :-1]
    return a * o.ravel()


def Dy(n, m, a, x):
    X = x.reshape(n, m)
    o = np.zeros((n, m))
    o[:-1] = a * (X[1:] - X[:-1])
    return o.ravel()


def DyT(n, m, a, y):
    Y = y.reshape(n, m)
    o = np.zeros((n, m))
    o[:-1] -= Y[:-1]
    o[1:] += Y[:-1]
    return a * o.ravel()


class Ops:
    """Reference of an operator set: methods named as in the library."""

    def __init__(self, kind, mrow, mcol, idx, dct_mode=1, av=0., ah=0., bp=1, A=None):
        from vf import lib
        self.kind, self.mrow, self.mcol, self.idx = kind, mrow, mcol, idx
        self.av, self.ah, self.bp, self.A = av, ah, bp, A
        self.mt = mrow * mcol
        if kind == lib.MAT:
            self.n, self.m = A.shape
            self.p = self.q = self.m
            self.norm_lo = None
            return
        if kind == lib.DCT1:
            self.one = True
        elif kind == lib.DCT2:
            self.one = False
        else:
            self.one = is1d(mrow, mcol, dct_mode)
        self.n = len(idx)
        self.q = self.m = self.p = self.mt
        if kind == lib.TV:
            big = self.mt * (1 + (av > 0) + (ah > 0))
            if bp == lib.ANALYSIS:
                self.p = big
            else:
                self.m = big
                self.p = self.mt

    # big dictionary [M, av Dy, ah Dx]
    def _W(self, v):
        y = idct(v[:self.mt], self.mrow, self.mcol, self.one)
        o = self.mt
        if self.av > 0:
            y = y + Dy(self.mrow, self.mcol, self.av, v[o:o + self.mt])
            o += self.mt
        if self.ah > 0:
            y = y + Dx(self.mrow, self.mcol, self.ah, v[o:o + self.mt])
        return y

    def _Wt(self, x):
        parts = [dct(x, self.mrow, self.mcol, self.one)]
        if self.av > 0:
            parts.append(DyT(self.mrow, self.mcol, self.av, x))
        if self.ah > 0:
            parts.append(DxT(self.mrow, self.mcol, self.ah, x))
        return np.concatenate(parts)

    def sizes(self):
        """operator -> (input length, output length)"""
        n, m, p, q = self.n, self.m, self.p, self.q
        d = dict(Ax=(m, n), Aty=(n, m), AtAx=(m, m), Mx=(m, q), Mty=(q, m),
                 Wz=(p, m), Wtx=(m, p), Rx=(q, n), Rty=(n, q))
        if self.m != self.p and self.kind == 3 and self.bp == 2:
            # W = I is not well defined when the coefficient vector is overcomplete
            del d["Wz"], d["Wtx"]
        return d

    def M(self, x):
        if self.kind == 4:
            return x.copy()
        if self.kind == 3:
            return x.copy() if self.bp == 1 else self._W(x)
        return idct(x, self.mrow, self.mcol, self.one)

    def Mt(self, y):
        if self.kind == 4:
            return y.copy()
        if self.kind == 3:
            return y.copy() if self.bp == 1 else self._Wt(y)
        return dct(y, self.mrow, self.mcol, self.one)

    def R(self, x):
        return self.A @ x if self.kind == 4 else x[self.idx]

    def Rt(self, y):
        if self.kind == 4:
            return self.A.T @ y
        o = np.zeros(self.q)
        o[self.idx] = y
        return o

    def ref(self, op, v):
        if op == "Ax":
            return self.R(self.M(v))
        if op == "Aty":
            return self.Mt(self.Rt(v))
        if op == "AtAx":
            return self.Mt(self.Rt(self.R(self.M(v))))
        if op == "Mx":
            return self.M(v)
        if op == "Mty":
            return self.Mt(v)
        if op == "Rx":
            return self.R(v)
        if op == "Rty":
            return self.Rt(v)
        if self.kind == 3 and self.bp == 1:
            return self._W(v) if op == "Wz" else self._Wt(v)
        return v.copy()

    def amp(self, op):
        """bound on the operator norm, for tolerances"""
        if self.kind == 4:
            s = np.linalg.norm(self.A) if op in ("Ax", "Aty", "AtAx", "Rx", "Rty") else 1.
            return max(1e-300, s * s if op == "AtAx" else s)
        if self.kind != 3:
            return 1.0
        w = np.sqrt(1 + 4 * self.av ** 2 + 4 * self.ah ** 2)
        return w * w if op == "AtAx" else w
