"""ctypes access to the shim / library under test, with guarded buffers."""
import ctypes
import os

import numpy as np

c_int, c_double, c_void = ctypes.c_int, ctypes.c_double, ctypes.c_void_p

# status codes are part of the public header; read from there by the shim's consumers
SUCCESS = 0
INFEASIBLE_START = 1 << 1
OUT_OF_MEMORY = 1 << 3
DCT_INIT_FAILURE = 1 << 5
FILE_READ_FAILURE = 1 << 7
CGSOLVE_FAILURE = 1 << 9
INVALID_ARGUMENT = 1 << 11
INCONSISTENT_ARGUMENTS = 1 << 13

DCT, DCT1, DCT2, TV, MAT = range(5)
OPS = dict(Ax=0, Aty=1, AtAx=2, Mx=3, Mty=4, Wz=5, Wtx=6, Rx=7, Rty=8)
DCT1_MODE, DCT2_MODE = 1, 2
ANALYSIS, SYNTHESIS = 1, 2

CANARY = 0x7ff4dead5eed5afe  # signalling-NaN pattern
NG = 16  # guard doubles on either side


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


def require(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


_EXACT = False
_libc = None


def use_exact_buffers():
    """ASan mode: plain posix_memalign blocks, so that redzones see every overrun."""
    global _EXACT, _libc
    _EXACT = True
    _libc = ctypes.CDLL(None)
    _libc.free.argtypes = [c_void]
    _libc.posix_memalign.argtypes = [ctypes.POINTER(c_void), ctypes.c_size_t,
                                     ctypes.c_size_t]


class _Own:
    def __init__(self, p):
        self.p = p

    def __del__(self):
        _libc.free(self.p)


RECORD = None  # a list: every buffer created is kept there


class Buf:
    """n elements at a 64-byte boundary (plus `off` elements), guarded on both sides."""

    def __init__(self, data, dtype=np.float64, off=0, name="buffer"):
        if isinstance(data, (int, np.integer)):
            data = np.full(int(data), 0.6931471805599453 if dtype == np.float64 else 77,
                           dtype=dtype)
        data = np.ascontiguousarray(data, dtype=dtype).ravel()
        self.name = name
        n, isz = data.size, np.dtype(dtype).itemsize
        self.n = n
        self.raw = None
        if _EXACT:
            p = c_void()
            _libc.posix_memalign(ctypes.byref(p), 64, n * isz + off * isz)
            addr = p.value + off * isz
            self._own = _Own(p)
            if n:
                mem = (ctypes.c_char * (n * isz)).from_address(addr)
                mem._own = self._own  # views keep the block alive
                self.a = np.frombuffer(mem, dtype=dtype)
            else:
                self.a = np.zeros(0, dtype=dtype)
        else:
            g = NG * 8
            raw = np.zeros(2 * g + n * isz + off * isz + 64 + 8, dtype=np.uint8)
            a0 = raw.ctypes.data
            start = (-(a0 + g)) % 64 + g + off * isz
            self.raw = raw
            self.s, self.e = start, start + n * isz
            self.pre = slice(start - g, start)
            self.post = slice(self.e, self.e + g)
            pat = np.frombuffer(np.array([CANARY] * NG, dtype=np.uint64).tobytes(),
                                dtype=np.uint8)
            self.pat = pat
            raw[self.pre] = pat
            raw[self.post] = pat
            self.a = raw[start:self.e].view(dtype)
            addr = a0 + start
        self.a[:] = data
        self.p = c_void(addr)
        self.orig = self.a.copy()
        if RECORD is not None:
            RECORD.append(self)

    def guards(self):
        if self.raw is not None:
            if not (np.array_equal(self.raw[self.pre], self.pat)
                    and np.array_equal(self.raw[self.post], self.pat)):
                raise Violation("memory outside the %s (length %d) was written"
                                % (self.name, self.n))

    def mark(self):
        self.orig = self.a.copy()

    def unchanged(self, what=None):
        self.guards()
        if not np.array_equal(self.a.view(np.uint8), self.orig.view(np.uint8)):
            i = int(np.nonzero(self.a != self.orig)[0][0]) if self.n else -1
            raise Violation("%s was modified (element %d: %r -> %r)"
                            % (what or self.name, i, self.orig[i].item(), self.a[i].item()))


def ibuf(data, name="index array"):
    return Buf(np.asarray(data, dtype=np.int32), dtype=np.int32, name=name)


SIG = {
    # name: (restype, argtypes)
    "sh_setup": (c_int, [c_int] * 5 + [c_double] * 2 + [c_int] * 2 + [c_void] * 2),
    "sh_n_atax": (ctypes.c_long, []),
    "sh_slot_fill": (None, [c_int, c_int]),
    "sh_slot_save": (None, [c_int]),
    "sh_slot_same": (c_int, [c_int]),
    "sh_dims": (None, [c_int, c_void]),
    "sh_normW": (c_double, [c_int]),
    "sh_set_normW": (None, [c_int, c_double]),
    "sh_copy_slot": (None, [c_int, c_int]),
    "sh_apply": (c_int, [c_int, c_int, c_void, c_void]),
    "sh_null_op": (None, [c_int, c_int]),
    "sh_destroy": (c_int, [c_int]),
    "sh_op_count": (ctypes.c_long, []),
    "sh_l1qc": (c_int, [c_int, c_int, c_void, c_int, c_void, c_void, c_void,
                        ctypes.c_long]),
    "sh_l1qc_dct": (c_int, [c_int, c_int, c_void, c_int] + [c_void] * 4),
    "sh_nesta": (c_int, [c_int, c_int, c_void, c_int, c_void, c_void]),
    "sh_np_new": (c_void, [c_int]),
    "sh_np_free": (None, [c_void]),
    "sh_np_setup": (c_int, [c_void, c_int, c_void, c_void, c_void]),
    "sh_np_set_mu": (None, [c_void, c_double]),
    "sh_np_arr": (c_void, [c_void, c_int]),
    "sh_np_feval": (c_double, [c_void]),
    "sh_np_project": (None, [c_void] * 4),
    "sh_fifo": (c_int, [c_int, c_void, c_void]),
    "sh_fifo_len": (c_int, []),
    "sh_nesta_maxinner": (c_int, []),
    "sh_lb_new": (c_void, [c_int, c_int, c_int, c_void, c_double, c_double]),
    "sh_lb_free": (None, [c_void]),
    "sh_lb_arr": (c_void, [c_void, c_int]),
    "sh_lb_feval": (c_double, [c_void] * 3),
    "sh_lb_fval": (c_double, [c_void]),
    "sh_lb_feasible": (c_int, [c_void] * 2),
    "sh_lb_descent": (c_int, [c_void, c_double, c_int, c_void, c_void]),
    "sh_lb_maxstep": (c_double, [c_void]),
    "sh_lb_init": (c_int, [c_int] + [c_void] * 5),
    "sh_cg": (c_int, [c_int] + [c_void] * 5 + [c_double, c_int, c_int, ctypes.c_long,
                                               c_void]),
    "sh_ls": (None, [c_int] + [c_void] * 3 + [c_double, c_void, c_void] + [c_double] * 3
              + [c_void] * 2),
    "sh_ls_xu": (None, [c_int] + [c_void] * 5 + [c_double, c_void, c_void]
                 + [c_double] * 3 + [c_void] * 2),
    "sh_ls_max": (c_int, []),
    "sh_daxpby": (None, [c_int, c_double, c_void, c_double, c_void]),
    "sh_imin": (c_double, [c_int] * 2),
    "sh_imax": (c_double, [c_int] * 2),
    "sh_min": (c_double, [c_double] * 2),
    "sh_max": (c_double, [c_double] * 2),
    "sh_breg_shrink": (None, [c_int, c_void, c_void, c_double]),
    "sh_breg_mxpy": (None, [c_int] + [c_void] * 3),
    "sh_breg_gs": (None, [c_int] * 2 + [c_void] * 2 + [c_double] * 2),
    "sh_breg_jacobi": (None, [c_int] * 2 + [c_void] * 4 + [c_double]),
    "sh_breg_rhs": (None, [c_int] * 2 + [c_void] * 6 + [c_double] * 2 + [c_void] * 2),
    "sh_breg_diag": (None, [c_int] * 2 + [c_double] * 2 + [c_void]),
    "sh_log_replace": (c_int, [c_int]),
    "sh_log_current": (c_int, []),
    "sh_log_reset": (None, []),
    "sh_log_calls": (ctypes.c_long, []),
    "sh_log_len": (ctypes.c_long, []),
    "sh_log_text": (ctypes.c_char_p, []),
    "sh_flush": (None, []),
    "sh_json_load": (c_void, [ctypes.c_char_p, c_void]),
    "sh_json_delete": (None, [c_void]),
    "sh_json_int": (c_int, [c_void, ctypes.c_char_p, c_void]),
    "sh_json_double": (c_int, [c_void, ctypes.c_char_p, c_void]),
    "sh_json_darr": (c_int, [c_void, ctypes.c_char_p, c_void, c_int, c_void, c_void]),
    "sh_json_iarr": (c_int, [c_void, ctypes.c_char_p, c_void, c_int, c_void]),
    "sh_json_text": (c_int, [ctypes.c_char_p, c_void, c_int, c_void]),
    # straight from the library
    "l1c_malloc_double": (c_void, [c_int]),
    "l1c_calloc_double": (c_void, [c_int]),
    "l1c_malloc_double_2D": (c_void, [c_int] * 2),
    "l1c_calloc_double_2D": (c_void, [c_int] * 2),
    "l1c_free_double": (None, [c_void]),
    "l1c_free_double_2D": (None, [c_int, c_void]),
    "l1c_breg_anistropic_TV": (c_int, [c_int] * 2 + [c_void] * 2 + [c_double] * 2
                               + [c_int] * 2),
    "l1c_Dx": (None, [c_int] * 2 + [c_double] + [c_void] * 2),
    "l1c_DxT": (None, [c_int] * 2 + [c_double] + [c_void] * 2),
    "l1c_DxTDx": (None, [c_int] * 2 + [c_double] + [c_void] * 2),
    "l1c_Dy": (None, [c_int] * 2 + [c_double] + [c_void] * 2),
    "l1c_DyT": (None, [c_int] * 2 + [c_double] + [c_void] * 2),
    "l1c_DyTDy": (None, [c_int] * 2 + [c_double] + [c_void] * 2),
    "l1c_daxpy_z": (None, [c_int, c_double] + [c_void] * 3),
    "l1c_daxpby_z": (None, [c_int, c_double, c_void, c_double] + [c_void] * 2),
    "l1c_dxmuly_z": (None, [c_int] + [c_void] * 3),
    "l1c_init_vec": (None, [c_int, c_void, c_double]),
    "l1c_dsum": (c_double, [c_int, c_void]),
    "l1c_dnorm1": (c_double, [c_int, c_void]),
    "l1c_dlogsum": (c_double, [c_int, c_double, c_void]),
    "l1c_dnrm2_err": (c_double, [c_int] + [c_void] * 2),
    "l1c_dnrm2_rel_err": (c_double, [c_int] + [c_void] * 2),
    "l1c_max_vec": (c_double, [c_int, c_void]),
    "l1c_abs_vec": (None, [c_int] + [c_void] * 2),
    "vcl_sum": (c_double, [c_int, c_void]),
    "vcl_logsum": (c_double, [c_int, c_double, c_void]),
    "vcl_dxMy_pz": (None, [c_int] + [c_void] * 3),
    # fault layer
    "ft_reset": (None, []),
    "ft_arm": (None, [ctypes.c_long] * 2),
    "ft_count": (ctypes.c_long, []),
    "ft_live": (ctypes.c_long, []),
    "ft_badfree": (ctypes.c_long, []),
    "ft_plans": (ctypes.c_long, []),
    "ft_planbad": (ctypes.c_long, []),
    "ft_fill": (None, [c_int]),
    "ft_disown": (None, [c_void]),
}


class Lib:
    def __init__(self, info):
        self.info = info
        self.fault = None
        if info.get("fault"):
            self.fault = ctypes.CDLL(info["fault"], mode=ctypes.RTLD_GLOBAL)
        self.l1c = ctypes.CDLL(info["lib"], mode=ctypes.RTLD_GLOBAL)
        self.shim = ctypes.CDLL(info["shim"], mode=ctypes.RTLD_GLOBAL)

    def __getattr__(self, name):
        src = self.shim if name.startswith("sh_") else (
            self.fault if name.startswith("ft_") else self.l1c)
        f = getattr(src, name)
        if name in SIG:
            f.restype, f.argtypes = SIG[name]
        setattr(self, name, f)
        return f

    # ---- convenience -------------------------------------------------------
    def setup(self, slot, kind, n, mrow, mcol, av=0.0, ah=0.0, dct_mode=DCT1_MODE,
              bp_mode=ANALYSIS, idx=None, A=None):
        return self.sh_setup(slot, kind, n, mrow, mcol, av, ah, dct_mode, bp_mode,
                             idx.p if idx is not None else None,
                             A.p if A is not None else None)

    def dims(self, slot):
        o = (c_int * 4)()
        self.sh_dims(slot, o)
        return dict(n=o[0], q=o[1], m=o[2], p=o[3])

    def apply(self, slot, op, inp, outlen, out=None):
        """Run an operator on guarded copies; returns the output array.  Checks guards
        and that the input comes back bit-identical."""
        i = inp if isinstance(inp, Buf) else Buf(inp, name="input of " + op)
        i.mark()
        o = out if out is not None else Buf(outlen, name="output of " + op)
        r = self.sh_apply(slot, OPS[op], i.p, o.p)
        if r:
            raise Violation("operator %s is not provided" % op)
        o.guards()
        i.unchanged("input vector of %s" % op)
        return o.a.copy()


def darr(vals):
    return Buf(np.asarray(vals, dtype=np.float64), name="option array")


L1QC_OPTS = ["epsilon", "mu", "lbtol", "tau", "lbiter", "newton_tol", "newton_max_iter",
             "verbose", "l1_tol", "cg_tol", "cg_maxiter", "cg_verbose", "warm_start_cg",
             "dct_mode"]
L1QC_DEFAULT = dict(epsilon=.1, mu=10, lbtol=1e-3, tau=0, lbiter=0, newton_tol=1e-3,
                    newton_max_iter=50, verbose=0, l1_tol=0, cg_tol=1e-8, cg_maxiter=200,
                    cg_verbose=0, warm_start_cg=0, dct_mode=1)


def l1qc_opts(**kw):
    d = dict(L1QC_DEFAULT, **kw)
    return darr([float(d[k]) for k in L1QC_OPTS])


def nesta_opts(mu, tol, sigma, n_continue, verbose=0):
    return darr([mu, tol, sigma, n_continue, verbose])
