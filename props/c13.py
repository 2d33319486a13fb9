"""C13: the library's allocators hand out aligned, disjoint, (where promised) zeroed
memory of the full size, and take it back."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from vf import gen, lib
from vf.engine import Test
from vf.lib import require

LEVEL = "exploration"
RULE = ("case = a history of up to 30 allocations (plain, zeroed, 1-D, 2-D, impossible "
        "sizes), writes over the whole block, reads and frees in any order, checked "
        "against a model of the live blocks; non-trivial when at least two blocks were "
        "live at once and written")
ASSUMPTIONS = ["fresh memory is pre-filled with garbage by the harness, so a missing "
               "clear shows"]

op = st.fixed_dictionaries(dict(
    k=st.sampled_from(["malloc", "calloc", "malloc", "calloc", "malloc2", "calloc2", "write",
                       "write", "read",
                       "free", "free", "null", "neg"]),
    n=st.one_of(st.integers(0, 70), gen.size(3000), st.sampled_from([4096, 9001])),
    r=st.one_of(*[st.integers(0, 9)] * 5, st.integers(10, 40)),
    i=st.integers(0, 50), v=st.integers(1, 1000)))
strategy = st.lists(op, min_size=2, max_size=30).map(lambda s: dict(ops=s))


def view(p, n):
    return np.ctypeslib.as_array(ctypes.cast(p, ctypes.POINTER(ctypes.c_double)), (n,))


class Block:
    def __init__(self, L, two, r, n, zero):
        self.two, self.r, self.n = two, r, n
        if two:
            self.p = (L.l1c_calloc_double_2D if zero else L.l1c_malloc_double_2D)(r, n)
            require(self.p is not None, "allocation of %dx%d failed", r, n)
            q = ctypes.cast(self.p, ctypes.POINTER(ctypes.c_void_p))
            self.rows = [q[k] for k in range(r)]
        else:
            self.p = (L.l1c_calloc_double if zero else L.l1c_malloc_double)(n)
            require(self.p is not None, "allocation of %d doubles failed", n)
            self.rows = [self.p]
        for k, a in enumerate(self.rows):
            require(a is not None, "row %d is NULL", k)
            require(a % 64 == 0, "row %d of %d doubles is at an address that is %d modulo "
                    "64", k, n, a % 64)
        self.val = None
        if zero:
            self.val = [0.0] * len(self.rows)
            self.read()

    def ranges(self):
        return [(a, a + 8 * self.n) for a in self.rows]

    def write(self, v):
        self.val = [float(v + k) for k in range(len(self.rows))]
        if self.n:
            for a, x in zip(self.rows, self.val):
                view(a, self.n)[:] = x

    def read(self):
        if self.val is None or not self.n:
            return
        for k, (a, x) in enumerate(zip(self.rows, self.val)):
            w = view(a, self.n)
            if not np.all(w == x):
                i = int(np.nonzero(w != x)[0][0])
                require(False, "element %d of row %d (%d doubles) is %r, expected %r", i, k,
                        self.n, w[i].item(), x)

    def free(self, L):
        if self.two:
            L.l1c_free_double_2D(self.r, self.p)
        else:
            L.l1c_free_double(self.p)


def check(c, L):
    ft = L.fault is not None
    if ft:
        L.ft_reset()
        live0 = L.ft_live()
    live = []
    nt = False
    for o in c["ops"]:
        k = o["k"]
        if k in ("malloc", "calloc", "malloc2", "calloc2"):
            b = Block(L, k.endswith("2"), o["r"], o["n"] if not k.endswith("2") else
                      o["n"] % 500, k.startswith("calloc"))
            for lo, hi in b.ranges():
                for q in live:
                    for l2, h2 in q.ranges():
                        require(hi <= l2 or h2 <= lo or lo == hi or l2 == h2,
                                "a new block overlaps a live one")
            live.append(b)
        elif k == "null":
            L.l1c_free_double(None)
            L.l1c_free_double_2D(o["r"], None)
        elif k == "neg":
            # cannot be satisfied: must be refused, not rounded to something small
            neg = -1 - o["r"] * o["i"]
            require(not L.l1c_malloc_double(neg), "a negative size was accepted")
            require(not L.l1c_calloc_double(neg), "a negative size was accepted (zeroed)")
            k1 = 1 + o["i"] % 9
            for f in (L.l1c_malloc_double_2D, L.l1c_calloc_double_2D):
                require(not f(k1, neg), "rows of negative length were accepted")
                require(not f(neg, o["n"] % 50), "a negative number of rows was accepted")
        elif live:
            b = live[o["i"] % len(live)]
            if k == "write":
                b.write(o["v"])
                nt = nt or len(live) > 1 and b.n > 0
            elif k == "read":
                b.read()
            else:
                b.read()
                b.free(L)
                live.remove(b)
        for b in live:
            b.read()
    for b in live:
        b.free(L)
    if ft:
        require(L.ft_badfree() == 0, "%d invalid or double frees", L.ft_badfree())
        require(L.ft_live() == live0, "%d blocks leaked", L.ft_live() - live0)
    return nt


@st.composite
def big_cases(draw):
    return dict(k=draw(st.sampled_from(["malloc", "malloc", "malloc2", "calloc"])),
                n=draw(st.one_of(st.integers(10 ** 5, 4 * 10 ** 6),
                                 st.sampled_from([2 ** 27 + 3, 2 ** 28 - 1, 2 ** 28 + 5,
                                                  2 ** 28 + 2 ** 20]))),
                r=draw(st.integers(1, 3)))


def check_big(c, L):
    """sizes whose byte count does not fit an int; only the ends are touched"""
    n = c["n"] if c["k"] != "calloc" else c["n"] % 4000003
    two = c["k"].endswith("2")
    b = Block(L, two, c["r"], n, c["k"] == "calloc")
    try:
        rg = sorted(b.ranges())
        require(all(x[1] <= y[0] for x, y in zip(rg, rg[1:])), "rows overlap")
        for k, a in enumerate(b.rows):
            v = view(a, n)
            for i in (0, n // 2, n - 1):
                v[i] = k + i
        for k, a in enumerate(b.rows):
            v = view(a, n)
            for i in (0, n // 2, n - 1):
                require(v[i] == k + i, "element %d of row %d of %d does not keep its value",
                        i, k, n)
    finally:
        b.free(L)
    return True


TESTS = [Test("big", big_cases(), check_big, variant="plain", quick=400, thorough=4000,
              shards=1, cap=20, cap_thorough=60, chunk=40),
         Test("history", strategy, check, variant="wrap", quick=60000, thorough=10 ** 6,
              shards=4, cap=20, cap_thorough=300),
         Test("historyasan", strategy, check, variant="asan", quick=20000,
              thorough=2 * 10 ** 5, shards=3, cap=20, cap_thorough=300)]
