"""C20: what the JSON loader returns is what the file says, and a file it cannot make sense
of is an error."""
import ctypes
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import lib
from vf.engine import Test
from vf.lib import Buf, require

LEVEL = "exploration"
RULE = ("case = a JSON object (integers, doubles of any magnitude, arrays of 0 to 131,073 "
        "numbers, strings, nested values, keys differing in case) with layout variations, "
        "written whole, truncated, replaced by junk, empty or missing, and a list of "
        "queries by name and type; non-trivial when a query hits an existing key or the "
        "file is broken")
ASSUMPTIONS = ["Python's json module defines what a document means; numbers asked for as "
               "integers are integers of C int range; keys are unique; trailing text after "
               "a complete document is not judged"]

names = st.sampled_from(["x", "X", "x0", "A", "a", "b", "pix_idx", "PIX_IDX", "mrow", "tol",
                         "long name with spaces", "x_", "N", "", "a.b", "a/b", "\u00e9",
                         "x\"y", "k" * 300, "k" * 301])
ints = st.one_of(st.integers(-20, 20), st.integers(-2 ** 31, 2 ** 31 - 1))
dbl = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.floats(-10, 10),
                st.integers(-2 ** 31, 2 ** 31 - 1).map(float),
                st.sampled_from([0.1, 1e-300, 1e300, 5e-324, -0.0, 1.7976931348623157e308]))
value = st.one_of(
    st.tuples(st.just("int"), ints), st.tuples(st.just("dbl"), dbl),
    st.tuples(st.just("iarr"), st.lists(ints, max_size=8)),
    st.tuples(st.just("darr"), st.lists(st.one_of(dbl, st.integers(-9, 9)), max_size=8)),
    st.tuples(st.just("rnd"), st.integers(0, 300)),
    st.tuples(st.just("str"), st.text("ab ]}\\\"[{,:0", max_size=6)),
    st.tuples(st.just("null"), st.none()), st.tuples(st.just("bool"), st.booleans()),
    st.tuples(st.just("obj"), st.dictionaries(names, ints, max_size=2)))


@st.composite
def documents(draw):
    ks = draw(st.lists(names, unique=True, max_size=6))
    return dict(doc=[[k, list(draw(value))] for k in ks],
                fmt=draw(st.sampled_from(["compact", "default", "indent", "pad", "crlf"])),
                how=draw(st.sampled_from(["whole"] * 6 + ["trunc", "trunc", "junk", "empty",
                                                          "blank", "missing", "dir"])),
                cut=draw(st.integers(0, 10 ** 6)),
                q=draw(st.lists(st.tuples(names, st.sampled_from(
                    ["int", "dbl", "iarr", "darr"])), max_size=6)),
                tail=draw(st.sampled_from(["", "\n", "  \n\n"])))


@st.composite
def long_documents(draw):
    """arrays of image size"""
    n = draw(st.one_of(st.integers(300, 20000), st.sampled_from(
        [2 ** k + o for k in (9, 10, 12, 13, 14, 15, 16, 17) for o in (-1, 0, 1)])))
    t = draw(st.sampled_from(["rnd", "irnd"]))
    d = draw(documents())
    ks = [k for k in ("x", "pix_idx") if all(k != q for q, _ in d["doc"])]
    if ks:
        d["doc"].insert(draw(st.integers(0, len(d["doc"]))), [ks[0], [t, n]])
        d["q"] = list(d["q"]) + [(ks[0], "darr" if t == "rnd" else "iarr")]
    d["how"] = "whole"
    return d


def build(c):
    d = {}
    for k, (t, v) in c["doc"]:
        if t == "rnd":
            v = [float(x) for x in np.random.default_rng(v).standard_normal(v)]
        elif t == "irnd":
            v = [int(x) for x in np.random.default_rng(v).integers(-10 ** 6, 10 ** 6, v)]
        d[k] = v
    f = c["fmt"]
    if f == "compact":
        s = json.dumps(d, separators=(",", ":"))
    elif f == "indent":
        s = json.dumps(d, indent=3)
    elif f == "crlf":
        s = json.dumps(d, indent="\t").replace("\n", "\r\n")
    else:
        s = json.dumps(d)
    if f == "pad":
        s = " \t\n" + s
    return d, s + c["tail"]


def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def whole(v):
    return num(v) and float(v).is_integer() and -2 ** 31 <= v < 2 ** 31


def check(c, L):
    d, text = build(c)
    how = c["how"]
    live0 = L.ft_live()
    L.ft_reset()
    tmp = tempfile.mkdtemp(prefix="l1cj")
    fn = os.path.join(tmp, "f.json")
    try:
        if how == "trunc":
            body = text.rstrip()
            text = body[:c["cut"] % len(body)]
        elif how == "junk":
            text = "no json here: %d" % c["cut"]
        elif how == "empty":
            text = ""
        elif how == "blank":
            text = " \n\t "
        if how == "dir":
            os.mkdir(fn)
        elif how != "missing":
            with open(fn, "wb") as fh:
                fh.write(text.encode())
        b = fn.encode()
        # the raw text
        raw = text.encode()
        N = lib.c_int(0)
        O = Buf(np.zeros(len(raw) + 8, dtype=np.uint8), dtype=np.uint8, name="text buffer")
        s = L.sh_json_text(b, O.p, len(raw) + 8, ctypes.byref(N))
        if how in ("missing", "dir"):
            require(s != 0, "reading a missing file as text succeeded")
        elif raw:
            require(s == 0, "reading a file as text failed with %d", s)
            require(N.value == len(raw) and O.a[:N.value].tobytes() == raw,
                    "the text of the file was not returned: %d of %d bytes", N.value,
                    len(raw))
        # the document
        st_ = lib.c_int(0)
        j = L.sh_json_load(b, ctypes.byref(st_))
        if how != "whole":
            require(st_.value != 0, "a file that is not JSON (%s: %r) was loaded without "
                    "error", how, text[:60])
            require(not j, "a document was returned for a broken file")
        else:
            require(st_.value == 0 and j, "a valid document was rejected (%d): %r",
                    st_.value, text[:80])
        hits = 0
        for k, t in c["q"]:
            v = d.get(k) if how == "whole" else None
            jj = j if how == "whole" else None
            if t == "int":
                o = lib.c_int(-777)
                if num(v) and not whole(v):
                    continue
                s = L.sh_json_int(jj, k.encode(), ctypes.byref(o))
                if num(v):
                    hits += 1
                    require(s == 0 and o.value == v, "%r is %r, the loader says %r (status "
                            "%d)", k, v, o.value, s)
                else:
                    require(s != 0 and o.value == -777, "%r is no number (%r) but was "
                            "extracted as the integer %d", k, v, o.value)
            elif t == "dbl":
                o = lib.c_double(-777.)
                s = L.sh_json_double(jj, k.encode(), ctypes.byref(o))
                if num(v):
                    hits += 1
                    require(s == 0 and o.value == float(v), "%r is %r, the loader says %r "
                            "(status %d)", k, v, o.value, s)
                else:
                    require(s != 0 and o.value == -777., "%r is no number (%r) but was "
                            "extracted as %r", k, v, o.value)
            else:
                isarr = isinstance(v, list)
                if isarr and t == "iarr" and any(not whole(e) for e in v):
                    continue
                n = len(v) if isarr else 0
                al = lib.c_int(0)
                o = Buf(n) if t == "darr" else lib.ibuf(np.zeros(n))
                if t == "darr":
                    s = L.sh_json_darr(jj, k.encode(), o.p, n, ctypes.byref(N),
                                       ctypes.byref(al))
                else:
                    s = L.sh_json_iarr(jj, k.encode(), o.p, n, ctypes.byref(N))
                if not isarr:
                    require(s != 0, "%r is no array (%r) but was extracted as one", k, v)
                    continue
                hits += 1
                require(s == 0 and N.value == n, "%r has %d elements, the loader says %d "
                        "(status %d)", k, n, N.value, s)
                require(al.value == 0, "the array is not 64-byte aligned")
                w = np.array(v, dtype=o.a.dtype)
                if not np.array_equal(o.a, w):
                    i = int(np.nonzero(o.a != w)[0][0])
                    require(False, "%r[%d] is %r, the loader says %r", k, i, w[i].item(),
                            o.a[i].item())
        if j:
            L.sh_json_delete(j)
    finally:
        if how == "dir":
            os.rmdir(fn)
        elif how != "missing":
            os.unlink(fn)
        os.rmdir(tmp)
    require(L.ft_badfree() == 0, "%d invalid or double frees", L.ft_badfree())
    require(L.ft_live() == live0, "%d blocks leaked", L.ft_live() - live0)
    return dict(nt=hits > 0 or how != "whole", labels=[how])


TESTS = [Test("loaderlong", long_documents(), check, variant="wrap", quick=5000,
              thorough=5 * 10 ** 4, shards=1, cap=25, cap_thorough=300, chunk=50),
         Test("loader", documents(), check, variant="wrap", quick=100000,
              thorough=10 ** 6, shards=5, cap=25, cap_thorough=300, chunk=200),
         Test("loaderasan", documents(), check, variant="asan", quick=100000,
              thorough=10 ** 6, shards=3, cap=25, cap_thorough=300, chunk=200)]
