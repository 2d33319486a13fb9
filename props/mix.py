"""The other properties' generators and calls, for the checks that look at all of the
library from one angle (memory safety, threads, uninitialised memory)."""
from hypothesis import strategies as st

from props import c01, c02, c03, c05, c06, c07, c08, c09, c10, c11, c12, c13, c20, c23
from props.l1common import opts, sloppy

MIX = {
    "dct": (c01.strat(24, 500, 80), c01.check),
    "dcttv": (c02.tv_case(), c02.check),
    "matrix": (c02.mat_case(), c02.check),
    "history": (c03.strategy, c03.check),
    "l1qc": (c05.cases(sloppy()), c05.check_sloppy),
    "l1qctight": (c05.cases(opts()), c05.check_opt),
    "l1qcinf": (c05.cases(opts(), far=st.sampled_from([0., .1, 10., 1e4])),
                c05.check_infeasible),
    "l1qc_dct": (c06.cases(sloppy(), 200), c06.check_sloppy),
    "l1qc_dcttight": (c06.cases(opts(), 60), c06.check_opt),
    "nesta": (c07.cases(False, 200), c07.check_feas),
    "nestatight": (c07.cases(True, 40), c07.check_opt),
    "nestafast": (c07.cases(False, 60).map(
        lambda c: dict(c, tol=max(c["tol"], -3.), nc=min(c["nc"], 2))), c07.check_feas),
    "tv": (c08.cases(200, False), c08.check_stop),
    "tvsym": (c08.cases(100, False), c08.check_sym),
    "cg": (c09.cases(), c09.check),
    "search": (c10.cases(), c10.check),
    "diff": (c11.cases(big=120), c11.check),
    "kernels": (c12.cases(1100, 5000), c12.check),
    "alloc": (c13.strategy, c13.check),
    "json": (c20.documents(), c20.check),
}

# the same at sizes where blocking, chunking and thread teams come into play
LONG = {
    "dctlong": (c01.long_cases(), c01.check),
    "dcttvlong": (c02.tv_long(), c02.check),
    "difflong": (c11.long_cases(), c11.check),
    "kernelslong": (c12.long_cases(), c12.check),
    "tvlong": (c23.cases(4000, 6), c23.check),
    "l1qc_dctlong": (c06.cases(sloppy(), 3000), c06.check_sloppy),
    "nestalong": (c07.cases(False, 3000).map(
        lambda c: dict(c, tol=max(c["tol"], -2.), nc=min(c["nc"], 2), mu=max(c["mu"], -1.))),
        c07.check_feas),
}
MIX.update(LONG)


def mix(names=None, drop=(), longs=tuple(LONG)):
    def one(n):
        return st.tuples(st.just(n), MIX[n][0]).map(lambda t: dict(what=t[0], c=t[1]))
    usual = st.one_of(*[one(n) for n in (names or MIX) if n not in drop and n not in LONG])
    long = st.one_of(*[one(n) for n in longs])
    return st.integers(0, 59).flatmap(lambda k: long if k == 59 else usual)


def run(case, L):
    return MIX[case["what"]][1](case["c"], L)


def nontrivial(r):
    return bool(r.get("nt") if isinstance(r, dict) else r)
