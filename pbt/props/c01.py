"""Item encoding: exact, shortest, self-inverse; values that do not fit are refused"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require, sut, Violation

NAMES = sorted(ref.TAGS)
VALUED = [n for n in NAMES if n not in ref.NOVALUE]


def span(name):
    return (-2**31, 2**31 - 1) if name in ref.SIGNED else (0, 2**32 - 1)


def boundaries(name):
    lo, hi = span(name)
    vals = set()
    for k in range(33):
        for d in (-2, -1, 0, 1):
            vals |= {2**k + d, -(2**k) + d}
    for b in range(4):
        vals |= {0x80 << (8 * b), 0xff << (8 * b)}
    vals |= set(range(-140, 300))
    return sorted(v for v in vals if lo <= v <= hi)


def cases():
    for n in NAMES:
        if n in ref.NOVALUE:
            yield [n, 0, "int"]
            continue
        for v in boundaries(n):
            yield [n, v, "int"]
            yield [n, v, "named"]


@st.composite
def random_case(draw):
    n = draw(st.sampled_from(VALUED))
    v = draw(gens.s32 if n in ref.SIGNED else gens.u32)
    return [n, v, draw(st.sampled_from(["int", "named"]))]


def make(name, value, form):
    cls = getattr(hr.item, name)
    if name in ref.NOVALUE:
        return cls()
    if form == "named":
        value = hr.NamedConstant("Something", value)
    return cls(value)


def check_encode(case):
    name, value, form = case
    with sut("%s(%d).bytes()" % (name, value)):
        i = make(name, value, form)
        got = bytes(i.bytes())
    ok = {ref.encode_item(name, value)}
    if value == 0:      # zero may be told by one byte, or by none at all
        ok = {ref.encode_item(name, 0, 0)} if name == "EndCollection" else \
            {ref.encode_item(name, 0, 0), ref.encode_item(name, 0, 1)}
    require(got in ok, "%s(%d) encodes as %s, expected %s", name, value, got.hex(),
            " or ".join(sorted(x.hex() for x in ok)))
    with sut("Item.parse(%s)" % got.hex()):
        back = hr.item.Item.parse(got)
        same = (int(back.kind), int(back.tag), int(back.value))
        eq, again = back == i, bytes(back.bytes())
        cls = type(back)
    require(same == ref.TAGS[name] + (value,), "%s (%s %d) parses back as kind %d tag %d value %d",
            got.hex(), name, value, *same)
    require(cls is getattr(hr.item, name), "%s parses back as a %s, not a %s", got.hex(), cls.__name__, name)
    require(eq is True or eq == 1, "%s(%d) is not equal to its own parsed encoding", name, value)
    require(again == got, "%s parses and encodes back to %s", got.hex(), again.hex())
    return {"signed" if name in ref.SIGNED else "unsigned",
            "bytes:%d" % (len(got) - 1), "negative" if value < 0 else "positive", "nt"}


# -------------------------------------------------- any legal width parses

@st.composite
def wide(draw):
    n = draw(st.sampled_from(VALUED))
    v = draw(gens.s32 if n in ref.SIGNED else gens.u32)
    m = ref.min_width(n, v)
    w = draw(st.sampled_from([x for x in (0, 1, 2, 4) if x >= m or v == 0]))
    return [n, v, w]


def check_wide(case):
    name, value, width = case
    blob = ref.encode_item(name, value, width)
    with sut("Item.parse(%s)" % blob.hex()):
        i = hr.item.Item.parse(blob)
        got = int(i.kind), int(i.tag), int(i.value)
    require(got == ref.TAGS[name] + (value,), "%s should parse as %s (%d), got kind %d tag %d value %d",
            blob.hex(), name, value, *got)
    return {"width:%d" % width, "nt" if width != ref.min_width(name, value) or value < 0 else "minimal"}


# ----------------------------------------------------- out of range refused

@st.composite
def misfit(draw):
    n = draw(st.sampled_from(VALUED))
    lo, hi = span(n)
    over = draw(st.booleans())
    d = draw(st.one_of(st.integers(1, 300), st.integers(1, 2**34), st.sampled_from([1, 2**8, 2**16, 2**31, 2**32])))
    return [n, hi + d if over else lo - d]


def check_misfit(case):
    name, value = case
    try:
        with sut("encoding", allow=(Exception,)):
            got = getattr(hr.item, name)(value).bytes()
    except Violation:
        raise
    except Exception:
        return {"refused", "over" if value > 0 else "under"}
    raise Violation("%s(%d) does not fit in an item, but encodes as %s" % (name, value, got.hex()))


# ----------------------------------------------------------------- equality

@st.composite
def pair(draw):
    a = draw(random_case())
    how = draw(st.sampled_from(["same", "name", "value", "both"]))
    b = list(a)
    if how in ("name", "both"):
        b[0] = draw(st.sampled_from(VALUED))
    if how in ("value", "both"):
        b[1] = draw(gens.s32 if b[0] in ref.SIGNED else gens.u32)
    lo, hi = span(b[0])
    b[1] = min(max(b[1], lo), hi)
    b[2] = draw(st.sampled_from(["int", "named"]))
    return [a, b]


def pairs():
    """All pairs of item kinds, with the same value or one that looks alike"""
    for x in VALUED:
        for y in VALUED:
            for v, w in ((0, 0), (1, 1), (0, 1), (1, 257), (255, 65535), (127, 127)):
                yield [[x, v, "int"], [y, w, "int"]]
    for x in ref.NOVALUE:
        for y in sorted(ref.TAGS):
            yield [[x, 0, "int"], [y, 0, "int"]]
            yield [[y, 0, "int"], [x, 0, "int"]]


def misfits():
    for n in VALUED:
        lo, hi = span(n)
        for d in (1, 2, 255, 256, 65536, 2**31, 2**32, 2**33):
            yield [n, hi + d]
            yield [n, lo - d]


def check_pair(case):
    a, b = case
    with sut("comparing items"):
        x, y = make(*a), make(*b)
        eq, ne = x == y, x != y
    want = a[:2] == b[:2]
    require(bool(eq) == want and bool(ne) != want, "%r == %r gives %r, != gives %r", a, b, eq, ne)
    return {"equal" if want else "different"}


PROPERTY = Property(
    "C01",
    "encode: every item class x every 2^k boundary value (enumerated), and random 32-bit values; "
    "wide: non minimal widths or negative values are non-trivial; misfit: all; pair: all",
    [
        Facet("encode", check_encode, random_case(), examples=3000, cases=cases, nontrivial=("nt",), thorough=60),
        Facet("wide", check_wide, wide(), examples=2000, nontrivial=("nt",), thorough=60),
        Facet("misfit", check_misfit, misfit(), cases=misfits, examples=500, thorough=40),
        Facet("pair", check_pair, pair(), cases=pairs, examples=600, thorough=40),
    ],
    assumptions=["zero may be encoded with no data byte or with one"])
