"""Symbolic constants compute, compare and hash like the numbers they name"""
import operator

from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require, sut

OPS = {"|": operator.or_, "&": operator.and_, "+": operator.add, "*": operator.mul,
       "<<": operator.lshift, ">>": operator.rshift, "==": operator.eq, "!=": operator.ne, "<": operator.lt,
       ">": operator.gt}
FORMS = {"|": ["cc", "ci", "ic"], "&": ["cc", "ci", "ic"], "==": ["cc", "ci", "ic"], "!=": ["cc", "ci", "ic"],
         "<": ["cc", "ci"], ">": ["cc", "ic"]}      # c: constant, i: plain number

NAMED = {"DataItem": ["Data", "Constant", "Array", "Variable", "Absolute", "Relative", "NoWrap", "Wrap", "Linear",
                      "NonLinear", "PreferredState", "NoPreferred", "NoNullPosition", "NullState", "NonVolatile",
                      "Volatile", "BitField", "BufferedBytes"],
         "Collection": ["Physical", "Application", "Logical", "Report", "NamedArray", "UsageSwitch", "UsageModifier"],
         "MainItem": ["Input", "Output", "Feature"]}
FLAGV = dict(Data=0, Constant=1, Array=0, Variable=2, Absolute=0, Relative=4, NoWrap=0, Wrap=8, Linear=0,
             NonLinear=16, PreferredState=0, NoPreferred=32, NoNullPosition=0, NullState=64, NonVolatile=0,
             Volatile=128, BitField=0, BufferedBytes=256,
             Physical=0, Application=1, Logical=2, Report=3, NamedArray=4, UsageSwitch=5, UsageModifier=6,
             Input=8, Output=9, Feature=11)


@st.composite
def case(draw):
    op = draw(st.sampled_from(sorted(OPS)))
    a = draw(st.one_of(st.integers(0, 300), gens.u32, st.integers(-300, 300)))
    b = draw(st.one_of(st.just(a), st.integers(0, 300), gens.u32)) if op not in ("<<", ">>") else draw(st.integers(0, 40))
    form = draw(st.sampled_from(FORMS.get(op, ["cc", "ci"])))
    return {"op": op, "a": a, "b": b, "form": form}


def check_op(c):
    a, b, f = c["a"], c["b"], OPS[c["op"]]
    x = hr.NamedConstant("A", a) if c["form"][0] == "c" else a
    y = hr.NamedConstant("B", b) if c["form"][1] == "c" else b
    with sut("%d %s %d" % (a, c["op"], b)):
        got = f(x, y)
        got = int(got)
    require(got == int(f(a, b)), "%d %s %d gives %d as constants (%s)", a, c["op"], b, got, c["form"])
    with sut("constant"):
        k = hr.NamedConstant("A", a)
        l = hr.NamedConstant("B", b)
        facts = (int(k), str(k), ~k, hash(k) == hash(l) or a != b, {k: 1}.get(a), {a: 1}.get(k))
    require(facts == (a, "A", ~a, True, 1, 1), "constant A = %d: int, str, ~, hash, dict give %r", a, facts)
    return {c["op"], "nt"}


@st.composite
def flag_sets(draw):
    names = draw(st.lists(st.sampled_from(NAMED["DataItem"]), min_size=1, max_size=6))
    return {"flags": names, "way": draw(st.sampled_from(NAMED["MainItem"])),
            "kind": draw(st.sampled_from(NAMED["Collection"]))}


def check_flags(c):
    """Flags combined by | compile to the bits HID gives them"""
    D = hr.descriptor
    want = 0
    for f in c["flags"]:
        want |= FLAGV[f]
    with sut("combining flags"):
        v = getattr(D.Value, c["flags"][0])
        for f in c["flags"][1:]:
            v = v | getattr(D.Value, f)
        d = D.Collection(getattr(D.Collection, c["kind"]), 0x10006,
                         D.Value(getattr(D.Value, c["way"]), 0x10030, 8, flags=v, logicalMin=0, logicalMax=9))
        combined = int(v)
    require(combined == want, "%s is 0x%x", "|".join(c["flags"]), combined)
    for opt in (False, True):
        blob = hr.compile_tree(d, opt)
        m = ref.interpret(blob)
        f = m.fields[0]
        require(len(m.fields) == 1 and f[0] == c["way"] and f[4] == want and m.collections[0][1] == FLAGV[c["kind"]],
                "%r compiles to %r in %r", c, f, m.collections[0])
    return {"nt"}


PROPERTY = Property(
    "C18",
    "random operators over constants and numbers; random combinations of the public flags, compiled",
    [
        Facet("ops", check_op, case(), examples=2500, nontrivial=("nt",), thorough=40),
        Facet("flags", check_flags, flag_sets(), examples=500, nontrivial=("nt",), thorough=20),
    ])
