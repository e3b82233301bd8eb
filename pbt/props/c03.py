"""Format conversion is lossless, whatever the formats and the input layout"""
import re

from hypothesis import strategies as st

from .. import gens, hr, listing, ref
from ..core import Facet, Property, require, sut

FORMATS = ("binary", "hex", "code")

# Comment bodies which look like data
JUNK = ["", " Usage (Mouse)", " 0x05, 0x01,", " // 0xff", " a b, c", " 12 34 ab", ",,,", " \"str\" 'c'",
        " é", " 0x", "\t0xc0", " * ", " http://x/y", " UsagePage (desktop)", "/"]


@st.composite
def any_item(draw):
    n = draw(st.sampled_from(sorted(ref.TAGS)))
    if n in ref.NOVALUE:
        return [n, 0, draw(st.sampled_from([0, 0, 1]))]
    v = draw(gens.s32 if n in ref.SIGNED else gens.u32)
    m = ref.min_width(n, v)
    ws = [x for x in (1, 2, 4) if x >= m]
    if n in ref.USAGES and v < 65536:
        ws = [x for x in ws if x < 4]
    return [n, v, draw(st.sampled_from(ws))]


items = st.one_of(gens.stream(), st.lists(any_item(), max_size=12))


def digits(case, b, n):
    """Two hexadecimal digits: lower, upper, or mixed case"""
    h = "%02x" % b
    return h if case == "lower" else h.upper() if case == "upper" else h[0] + h[1].upper() if n % 2 else h[0].upper() + h[1]


CASES = st.sampled_from(["lower", "upper", "lower", "upper", "mixed"])


@st.composite
def code_text(draw, blob):
    """The bytes as some C source code would have them"""
    upper, prefix = draw(CASES), draw(st.sampled_from(["0x", "0x", "0x", "0X"]))
    out = []
    style = draw(st.integers(0, 3))
    for n, b in enumerate(blob):
        if style and draw(st.integers(0, 7)) == 0:
            c = draw(st.sampled_from(JUNK))
            k = draw(st.integers(0, 2))
            if k == 0:
                out.append("//%s%s" % (c, draw(st.sampled_from(["\n", "\r\n"]))))
            elif k == 1:
                out.append("/*%s*/" % c.replace("*/", "").replace("/", " "))
            else:
                out.append("/*%s\n * %s, 0x12,\n*/" % (c.replace("*/", ""), draw(st.sampled_from(["x", "//", "0x7f"]))))
        h = digits(upper, b, n)
        if b < 16 and draw(st.integers(0, 9)) == 0:
            h = h[1:]
        out.append(prefix + h)
        if n + 1 < len(blob) or draw(st.booleans()):
            out.append(draw(st.sampled_from(["", " ", ""])) + "," +
                       draw(st.sampled_from([" ", "", "\n", "\t", "  \r\n", " ", " ", "\f", " \v"])))
    if draw(st.integers(0, 3)) == 0:
        out.append(draw(st.sampled_from(["// end", "/* end */", "\n\n", "  // 0x00,\n"])))
    return "".join(out)


@st.composite
def hex_text(draw, blob):
    prefix = draw(st.sampled_from(["", "", "0x"]))
    sep = draw(st.sampled_from([" ", "\n", ", ", ",", "\t", "  ", "\r\n", "\f", None, None]))
    up = draw(CASES)
    out = []
    for n, b in enumerate(blob):
        out.append(prefix + digits(up, b, n))
        out.append(sep if sep is not None else draw(st.sampled_from([" ", "\n", ", ", ";\n", "\v", "\f\n", ":", "-", "|", "/"])))
    return "".join(out)


@st.composite
def case(draw):
    its = draw(items)
    blob = ref.encode(its)
    fmt = draw(st.sampled_from(FORMATS))
    text = None
    if fmt == "code":
        text = draw(code_text(blob))
    elif fmt == "hex":
        text = draw(hex_text(blob))
    chain = draw(st.lists(st.sampled_from(FORMATS), min_size=1, max_size=3))
    return {"items": its, "in": fmt, "text": text, "chain": chain}


def strict(fmt, data):
    """What any reader would make of our output"""
    if fmt == "binary":
        return data
    if fmt == "hex":
        lines = data.split("\n")
        require(lines[-1] == "", "hex output does not end with a newline: %r", data)
        for l in lines[:-1]:
            require(re.fullmatch("[0-9a-fA-F]{2}( [0-9a-fA-F]{2})*", l), "hex output has a line %r", l)
            require(len(ref.decode(bytes.fromhex(l))) == 1, "hex output has no item of its own on line %r", l)
        return b"".join(bytes.fromhex(l) for l in lines[:-1])
    try:
        return listing.c_bytes(data)
    except ValueError as e:
        require(False, "code output is not valid C: %s in %r", e, data)


def check_convert(c):
    blob = ref.encode(c["items"])
    want = ref.items_of(blob)
    fmt, data = c["in"], (blob if c["in"] == "binary" else c["text"])
    first = None
    for ofmt in c["chain"]:
        data = hr.convert(fmt, data, ofmt)
        try:
            got = strict(ofmt, data)
            items_ = ref.items_of(got)
        except (ref.Malformed, ValueError) as e:
            require(False, "%s output of %s is malformed: %s", ofmt, blob.hex(), e)
        require(items_ == want, "%s -> %s turned %s to %s (input %r)", fmt, ofmt, blob.hex(), got.hex(), c["text"])
        require(len(got) <= len(blob) + 2 * len(want), "output grew: %s to %s", blob.hex(), got.hex())
        if first is None:
            first = got
        require(got == first, "bytes depend on the format: %s, %s", first.hex(), got.hex())
        fmt = ofmt
    l = {"in:" + c["in"], "out:" + c["chain"][0], "hops:%d" % len(c["chain"])}
    if c["in"] == "code" and ("//" in c["text"] or "/*" in c["text"]):
        l.add("comments")
    if len(want) > 3:
        l.add("nt")
    return l


@st.composite
def long_case(draw):
    c = draw(gens.long_stream(20000))
    c["chain"] = [draw(st.sampled_from(FORMATS)) for _ in range(draw(st.integers(1, 3)))] + ["binary"]
    return c


def check_long(c):
    """Size of the input does not matter"""
    blob = ref.encode(c["items"])
    want = ref.items_of(blob) * c["times"]
    fmt, data = "binary", blob * c["times"]
    for ofmt in c["chain"]:
        data = hr.convert(fmt, data, ofmt)
        fmt = ofmt
    got = ref.items_of(data)
    require(len(got) == len(want) and got == want, "%d times %s through %r gives %d items, expected %d", c["times"],
            blob.hex(), c["chain"], len(got), len(want))
    return {"nt"}


PROPERTY = Property(
    "C03",
    "a chain of 1 to 3 conversions from a generated descriptor (binary, or hex / C source with random layout, "
    "case, and comments that look like data); non-trivial with 4 items or more",
    [Facet("convert", check_convert, case(), examples=2500, nontrivial=("nt",), thorough=25),
     Facet("long", check_long, long_case(), examples=24, nontrivial=("nt",), thorough=20)])
