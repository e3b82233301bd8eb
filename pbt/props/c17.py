"""Units: composition by exponents, named units, through compile and decompile"""
from hypothesis import strategies as st

from .. import gens, hr, listing, ref
from ..core import Facet, Property, require, sut, Violation

DIMS = ["length", "mass", "time", "temperature", "current", "luminousintensity"]
SYSTEMS = ["SILinear", "SIRotation", "EnglishLinear", "EnglishRotation"]


def pack(system, exps):
    v = system
    for i, d in enumerate(DIMS):
        v |= (exps.get(d, 0) & 0xf) << (4 * (i + 1))
    return v


@st.composite
def compose(draw):
    return {"system": draw(st.integers(0, 4)),
            "exps": {d: draw(st.integers(-8, 7)) for d in draw(st.lists(st.sampled_from(DIMS), unique=True, max_size=6))},
            "order": draw(st.booleans())}


def value_of(c):
    Unit = hr.descriptor.Unit
    with sut("composing unit"):
        v = getattr(Unit, SYSTEMS[c["system"] - 1]) if c["system"] else 0
        parts = [getattr(Unit, d)(e) for d, e in sorted(c["exps"].items())]
        for p in parts:
            v = (v | p) if c["order"] else (p | v)
        return v


def check_compose(c):
    v = value_of(c)
    want = pack(c["system"], c["exps"])
    require(int(v) == want, "%r composes to 0x%x, should be 0x%x", c, int(v), want)
    through(int(v), v)
    return {"nt"} if len(c["exps"]) > 1 or any(e < 0 for e in c["exps"].values()) else set()


def through(want, v):
    """Compile, list, decompile, run the script"""
    D = hr.descriptor
    with sut("compile"):
        d = D.Collection(D.Collection.Application, 0x10006,
                         D.Value(D.Value.Input, 0x10030, 8, logicalMin=0, logicalMax=100, unit=v))
    for opt in (False, True):
        blob = hr.compile_tree(d, opt)
        f = ref.interpret(blob).fields
        require(len(f) == 1 and f[0][7] == want, "unit 0x%x compiles to %r", want, f)
        text = hr.compile_tree(d, opt, "code")
        p = listing.problems(text, blob)
        require(p is None, "%s", p)
        root, _ = hr.extract(blob)
        script = hr.dump(root)
        again = hr.exec_script(script)
        f = ref.interpret(hr.compile_tree(again, opt)).fields
        require(len(f) == 1 and f[0][7] == want, "unit 0x%x decompiles to %s", want, script)


def named():
    return [[k, v] for k, v in sorted(listing.UNITS.items())]


def check_named(case):
    k, v = case
    with sut("Unit.%s" % k):
        u = getattr(hr.descriptor.Unit, k)
        got, name = int(u), str(u)
    # independent of the unit system: whether SI linear is told or not does not matter here
    ok = {v, v | 1} if not v & 0xf else {v}
    require(got in ok, "Unit.%s is 0x%x, should be 0x%x", k, got, v)
    require(name == k, "Unit.%s is named %s", k, name)
    through(got, u)
    through(got, got)
    return {"nt"}


@st.composite
def refused(draw):
    return [draw(st.sampled_from(DIMS)), draw(st.one_of(st.integers(8, 100), st.integers(-100, -9)))]


def check_refused(case):
    d, e = case
    try:
        with sut("unit exponent", allow=(Exception,)):
            v = getattr(hr.descriptor.Unit, d)(e)
    except Violation:
        raise
    except Exception:
        return {"nt"}
    raise Violation("Unit.%s(%d) does not fit in 4 bits, but gives 0x%x" % (d, e, int(v)))


def all_exponents():
    for d in DIMS:
        for e in range(-8, 8):
            yield {"system": 1, "exps": {d: e}, "order": True}


PROPERTY = Property(
    "C17",
    "compose: several dimensions, or a negative exponent; named: each named unit; refused: all",
    [
        Facet("compose", check_compose, compose(), examples=800, cases=all_exponents, nontrivial=("nt",), thorough=40),
        Facet("named", check_named, cases=named, nontrivial=("nt",)),
        Facet("refused", check_refused, refused(), examples=200, nontrivial=("nt",), thorough=10),
    ])
