"""Binary parsing: exact segmentation and decoding, malformed input refused"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require, sut, Violation
import io


def parse(blob):
    sink = hr.Sink()
    hr.parser.Parser.get("binary")(io.BytesIO(blob), sink).read()
    return sink


def triples(items):
    return [(int(i.kind), int(i.tag), int(i.value)) for i in items]


def expected(blob):
    return [ref.TAGS[n] + (v,) for n, v, w, r in ref.decode(blob)]


@st.composite
def any_items(draw):
    """Any item in any order, any legal width; not necessarily a sensible descriptor"""
    out = []
    for _ in range(draw(st.integers(0, 14))):
        n = draw(st.sampled_from(sorted(ref.TAGS)))
        if n in ref.NOVALUE:
            out.append([n, 0, draw(st.sampled_from([0, 0, 1, 2, 4]))])
            continue
        v = draw(gens.s32 if n in ref.SIGNED else gens.u32)
        m = ref.min_width(n, v)
        ws = [x for x in (0, 1, 2, 4) if x >= m or v == 0]
        if n in ref.USAGES and v < 65536:
            ws = [x for x in ws if x < 4]
        out.append([n, v, draw(st.sampled_from(ws))])
    return out


def check_items(items):
    blob = ref.encode(items)
    want = expected(blob)
    with sut("parsing %s" % blob.hex()):
        sink = parse(blob)
        got = triples(sink.items)
    require(got == want, "%s parses as %r, expected %r", blob.hex(), got, want)
    require(sink.closed == 1, "output stream closed %d times", sink.closed)
    l = {"w%d" % i[2] for i in items}
    if len(items) >= 3 and len(l) >= 2:
        l.add("nt")
    return l


def check_stream(items):
    blob = ref.encode(items)
    want = expected(blob)
    with sut("parsing %s" % blob.hex()):
        sink = parse(blob)
        got = triples(sink.items)
    require(got == want, "%s parses as %r, expected %r", blob.hex(), got, want)
    require(sink.closed == 1, "output stream closed %d times", sink.closed)
    return gens.stream_labels(items) | {"nt"}


@st.composite
def blobs(draw):
    """Arbitrary bytes, or a well-formed stream with some damage"""
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(st.binary(max_size=24)).hex()
    blob = bytearray(ref.encode(draw(any_items())))
    how = draw(st.sampled_from(["cut", "flip", "insert", "delete", "long"]))
    if not blob:
        return ""
    pos = draw(st.integers(0, len(blob) - 1))
    if how == "cut":
        blob = blob[:pos]
    elif how == "flip":
        blob[pos] = draw(st.integers(0, 255))
    elif how == "insert":
        blob[pos:pos] = draw(st.binary(min_size=1, max_size=3))
    elif how == "delete":
        del blob[pos]
    else:
        blob[pos:pos] = bytes([0xfe, 2, 0xf1, 0, 0])
    return bytes(blob).hex()


def check_blob(h):
    blob = bytes.fromhex(h)
    try:
        want = ref.decode(blob)
    except ref.Malformed:
        want = None
    if want is not None and any(n in ref.NOVALUE and v for n, v, w, r in want):
        return {"unspecified"}       # Push / Pop / EndCollection carrying a value
    if want is None:
        try:
            with sut("parsing", allow=(Exception,)):
                sink = parse(blob)
        except Violation:
            raise
        except Exception:
            return {"malformed", "nt"}
        raise Violation("malformed descriptor %s is accepted, as %r" % (h, triples(sink.items)))
    with sut("parsing %s" % h):
        got = triples(parse(blob).items)
    # 32-bit usages below 0x10000 are the only values one may read in two ways
    want = [ref.TAGS[n] + (v,) for n, v, w, r in want]
    require(got == want, "%s parses as %r, expected %r", h, got, want)
    return {"wellformed"} | ({"nt"} if len(want) > 1 else set())


def check_long(c):
    """Size of the input does not matter"""
    blob = ref.encode(c["items"])
    want = expected(blob) * c["times"]
    with sut("parsing %d times %s" % (c["times"], blob.hex())):
        sink = parse(blob * c["times"])
        got = triples(sink.items)
    require(len(got) == len(want) and got == want, "%d times %s parses as %d items, expected %d", c["times"], blob.hex(),
            len(got), len(want))
    require(sink.closed == 1, "output stream closed %d times", sink.closed)
    return {"nt", "bytes:%d+" % (10 ** (len(str(len(blob) * c["times"])) - 1))}


PROPERTY = Property(
    "C02",
    "items: at least 3 items of at least 2 data widths; stream: realistic descriptors; "
    "blob: malformed input, or well-formed with 2 items or more",
    [
        Facet("items", check_items, any_items(), examples=1500, nontrivial=("nt",), thorough=40),
        Facet("stream", check_stream, gens.stream(), examples=300, nontrivial=("nt",), thorough=20),
        Facet("long", check_long, gens.long_stream(), examples=40, nontrivial=("nt",), thorough=20),
        Facet("blob", check_blob, blobs(), examples=2000, nontrivial=("nt",), thorough=60),
    ],
    assumptions=["data bytes of Push, Pop and EndCollection are zero"])
