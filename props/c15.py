"""C15: no call with valid arguments reads or writes outside the memory it was given or
allocated, or depends on memory it never initialised."""
import numpy as np

from props.mix import mix, nontrivial, run
from vf import lib
from vf.engine import Test
from vf.lib import Violation, require

LEVEL = "exploration"
RULE = ("case = one call (or call history) drawn from the generators of the operator, solver, "
        "kernel, allocator and loader properties, on arrays of exactly the documented size "
        "in an AddressSanitizer + UndefinedBehaviorSanitizer build; or, in an ordinary "
        "build, the same call made twice with different garbage in all fresh memory; "
        "non-trivial by the rule of the property the case is drawn from")
ASSUMPTIONS = ["for BLAS and FFTW, what is checked is every element the library asks them to "
               "read or write; inside cJSON, accesses are seen only when they pass through "
               "an intercepted C library function",
               "results that differ from the definition are the other properties' business "
               "and are not reported here"]


def check_asan(c, L):
    try:
        r = run(c, L)
    except Violation:
        r = False
    return dict(nt=nontrivial(r), labels=[c["what"]])


def record(c, L, fill):
    L.ft_fill(fill)
    lib.RECORD = []
    err = None
    r = None
    try:
        r = run(c, L)
    except Violation as e:
        err = str(e)
    finally:
        b, lib.RECORD = lib.RECORD, None
        L.ft_fill(0x40)
    return r, err, b


def check_fill(c, L):
    r, e1, b1 = record(c, L, 0x40)
    _, e2, b2 = record(c, L, 0xff)
    for x in b1 + b2:
        x.guards()
    require((e1 is None) == (e2 is None), "the outcome depends on what fresh memory contains: "
            "%r / %r", e1, e2)
    if e1 is None:
        require(len(b1) == len(b2), "the course of the call depends on what fresh memory "
                "contains")
        for x, y in zip(b1, b2):
            if x.a.tobytes() != y.a.tobytes():
                i = int(np.nonzero(x.a != y.a)[0][0])
                require(False, "%s[%d] depends on what fresh memory contains: %r / %r",
                        x.name, i, x.a[i].item(), y.a[i].item())
    return dict(nt=nontrivial(r), labels=[c["what"]])


TESTS = [Test("asan", mix(drop=("nestatight",)), check_asan, variant="asan", quick=40000, thorough=10 ** 6,
              shards=6, cap=60, cap_thorough=900, chunk=100),
         Test("fill", mix(drop=("alloc", "nestatight")), check_fill, variant="wrap", quick=40000,
              thorough=10 ** 6, shards=2, cap=60, cap_thorough=600, chunk=100)]
