"""UsageRange behaves like the list of its usages"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require, sut, Violation


@st.composite
def case(draw):
    pg = draw(gens.page())
    a = draw(gens.usage_id())
    n = draw(st.one_of(st.integers(1, 8), st.integers(0, 8), st.integers(1, 300)))
    b = min(a + n - 1, 0xfffe)
    if b < 0 or n and a > b:
        a = b = max(b, 0)
    return {"min": pg << 16 | a, "max": pg << 16 | b,
            "form": draw(st.sampled_from(["usage", "int"])),
            "ix": draw(st.lists(st.one_of(st.integers(-10, 10), st.integers(-400, 400)), min_size=1, max_size=8))}


def make(c):
    f = hr.mk_usage if c["form"] == "usage" else (lambda x: x)
    return hr.UsageRange(f(c["min"]), f(c["max"]))


def check_range(c):
    want = list(range(c["min"], c["max"] + 1))
    with sut("UsageRange"):
        r = make(c)
        n, l, l2 = len(r), [int(u) for u in r], [int(u) for u in r]
        kinds = all(isinstance(u, hr.Usage) for u in r)
        truth = bool(r)
    require(n == len(want) and truth == bool(want), "length is %d, should be %d", n, len(want))
    require(l == want and l2 == want, "iterating 0x%x..0x%x gives %d usages %s", c["min"], c["max"], len(l),
            [hex(x) for x in l[:10]])
    require(kinds, "members are not Usage objects")
    for i in c["ix"] + [0, len(want) - 1, len(want), -1, -len(want), -len(want) - 1]:
        try:
            exp = want[i]
        except IndexError:
            exp = None
        try:
            with sut("index %d of %d" % (i, n), allow=(IndexError,)):
                got = r[i]
                got = int(got)
        except IndexError:
            got = None
        require(got == exp, "[%d] of %d usages from 0x%x gives %s, list gives %s", i, n, c["min"],
                got, exp)
    with sut("str"):
        ns = {}
        exec("from hrdc.usage import *", ns)
        back = eval(str(r), ns)
        lb = [int(u) for u in back]
    require(lb == want, "%s evaluates to another range", r)
    if not want:
        return {"len:0", "nt"}
    with sut("named array"):
        v = hr.descriptor.Value(hr.descriptor.Value.Input, None, 8, namedArray=r)
        bounds = int(v.logicalMin), int(v.logicalMax)
    require(bounds == (1, len(want)), "named array of %d usages has logical bounds %r", len(want), bounds)
    return {"len:1" if n == 1 else "len:2+"} | ({"nt"} if n > 1 else set())


@st.composite
def arrays(draw):
    pg = draw(gens.page())
    a = draw(st.integers(1, 500))
    n = draw(st.integers(0, 8))
    l = [pg << 16 | (a + i) for i in range(n)]
    how = draw(st.sampled_from(["ok", "ok", "swap", "gap", "dup", "rev", "other"]))
    if n > 1:
        i = draw(st.integers(0, n - 2))
        if how == "swap":
            l[i], l[i + 1] = l[i + 1], l[i]
        elif how == "gap":
            l[i + 1:] = [x + draw(st.integers(1, 5)) for x in l[i + 1:]]
        elif how == "dup":
            l[i + 1] = l[i]
        elif how == "rev":
            l.reverse()
        elif how == "other":
            l[i] = draw(gens.usage())
    return {"list": l, "form": draw(st.sampled_from(["usage", "int"]))}


def check_array(c):
    l = c["list"]
    f = hr.mk_usage if c["form"] == "usage" else (lambda x: x)
    ok = len(l) >= 2 and all(y == x + 1 for x, y in zip(l, l[1:]))
    try:
        with sut("from_array", allow=(ValueError,)):
            r = hr.UsageRange.from_array([f(x) for x in l])
            got = [int(u) for u in r]
    except ValueError:
        require(not ok, "from_array refuses contiguous %s", [hex(x) for x in l])
        return {"refused", "nt"}
    require(ok, "from_array accepts %s, as %s", [hex(x) for x in l], [hex(x) for x in got])
    require(got == l, "from_array of %s gives %s", [hex(x) for x in l], [hex(x) for x in got])
    return {"accepted", "nt"}


PROPERTY = Property(
    "C16",
    "range: ranges of 2 usages or more, read by index, iteration and script; array: every generated list",
    [
        Facet("range", check_range, case(), examples=1200, nontrivial=("nt",), thorough=40),
        Facet("array", check_array, arrays(), examples=800, nontrivial=("nt",), thorough=40),
    ])
