"""Work grows in proportion to the input, and always ends"""
import gc
import sys

from hypothesis import strategies as st

from .. import decomp, gens, hr, ref
from ..core import Facet, Property, require

SLACK = 2000
LINEAR, SQUARE = 2.5, 6


TOOL = 4
EVENTS = sys.monitoring.events


def steps(f):
    """Calls, turns of loops and resumptions f makes"""
    n = [0]

    def count(*_):
        n[0] += 1

    kinds = [EVENTS.PY_START, EVENTS.PY_RESUME, EVENTS.CALL, EVENTS.JUMP]
    sys.monitoring.use_tool_id(TOOL, "work")
    gc.disable()
    try:
        for e in kinds:
            sys.monitoring.register_callback(TOOL, e, count)
        sys.monitoring.set_events(TOOL, sum(kinds))
        f()
    finally:
        sys.monitoring.set_events(TOOL, 0)
        for e in kinds:
            sys.monitoring.register_callback(TOOL, e, None)
        sys.monitoring.free_tool_id(TOOL)
        gc.enable()
    return n[0]


def growth(what, most, f, ks):
    """f(k) for each of ks (doubling): what each doubling adds may grow `most` times

    A doubling that hardly doubles the whole is fine: caches may have taken part of the lower figures."""
    f(ks[0])
    n = [steps(lambda: f(k)) for k in ks]
    for a, b, c in zip(n, n[1:], n[2:]):
        require(c - b <= most * max(b - a, 0) + SLACK or c <= 2.1 * b, "%s takes %r steps for %r parts", what, n, ks)


def sized(n, total):
    k = max(2, min(64, total // (n + 1)))
    return [k, 2 * k, 4 * k]


def texts(blob):
    return {"binary": blob, "hex": blob.hex(), "code": ", ".join("0x%02x" % b for b in blob)}


def check_stream(items):
    ks = sized(len(items), 60)
    blob = ref.encode(items)
    src = texts(blob)

    def data(fmt, k):
        return (", " if fmt == "code" else src[fmt][:0]).join([src[fmt]] * k)

    for i, o in (("binary", "code"), ("code", "hex"), ("hex", "binary")):
        growth("convert %s -> %s of %s" % (i, o, blob.hex()), LINEAR, lambda k: hr.convert(i, data(i, k), o), ks)
    growth("converter -O of %s" % blob.hex(), SQUARE, lambda k: hr.convert("binary", blob * k, "binary", True), ks)
    return gens.stream_labels(items) | ({"nt"} if len(items) > 2 else set())


def check_back(items):
    """Decompile, print the script, run it"""
    ks = sized(len(items), 60)
    blob = ref.encode(items)
    try:
        fields = len(ref.interpret(blob + blob).fields)
    except ref.Malformed:
        return {"malformed"}
    if fields > 600:
        return {"big"}
    made = {}

    def back(k):
        made[k] = hr.extract(blob * k)[0]

    growth("decompiling %s" % blob.hex(), LINEAR, back, ks)
    growth("script of %s" % blob.hex(), LINEAR, lambda k: hr.dump(made[k]), ks)
    text = {k: hr.dump(d) for k, d in made.items()}
    growth("running the script of %s" % blob.hex(), LINEAR, lambda k: hr.exec_script(text[k]), ks)
    return decomp.labels(items)


PAIRS = [[["Push", 0], ["Pop", 0]], [["Collection", 2], ["EndCollection", 0]], [["Collection", 0], ["EndCollection", 0]]]


@st.composite
def pairs(draw):
    def few(n):
        return [["ReportSize", 8], ["ReportCount", 1], ["LogicalMinimum", 0], ["LogicalMaximum", 1]][:n] + \
            ([["Usage", 0x10030], ["Input", 2]] if draw(st.booleans()) else []) + \
            ([["ReportID", 1], ["Output", 3]] if draw(st.booleans()) else [])

    p = draw(st.lists(st.sampled_from(PAIRS), min_size=1, max_size=2))
    top = [["UsagePage", 1], ["Usage", 2], ["ReportSize", 8], ["ReportCount", 1], ["LogicalMinimum", 0],
           ["LogicalMaximum", 1], ["Collection", 1]]
    return {"top": top, "a": few(draw(st.integers(0, 2))) + [x[0] for x in p], "inner": few(0), "b": [x[1] for x in p[::-1]] + few(0)}


def check_pairs(c):
    """Pairs nested in pairs"""
    ks = [50, 100, 200] if len(c["a"]) < 3 else [25, 50, 100, 200]
    if any(i[0] == "Collection" for i in c["a"]) and sum(i[0] == "Collection" for i in c["a"]) > 1:
        ks = [k // 2 for k in ks]
    blob = {k: ref.encode(c["top"] + c["a"] * k + c["inner"] + c["b"] * k + [["EndCollection", 0]]) for k in ks}
    growth("converting pairs %r" % c, LINEAR, lambda k: hr.convert("binary", blob[k], "hex"), ks)
    growth("listing pairs %r" % c, LINEAR, lambda k: hr.convert("binary", blob[k], "code"), ks)
    growth("optimizing pairs %r" % c, SQUARE, lambda k: hr.convert("binary", blob[k], "binary", True), ks)
    made = {}

    def back(k):
        made[k] = hr.extract(blob[k])[0]

    growth("decompiling pairs %r" % c, LINEAR, back, ks)
    growth("script of pairs %r" % c, LINEAR, lambda k: hr.dump(made[k]), ks)
    return {"nt"}


@st.composite
def part(draw):
    rid = draw(st.one_of(st.none(), gens.report_ids))
    ids = draw(st.booleans())
    m = draw(gens.members(2, None if ids else rid, ids, 3))
    if ids:
        rid = None
    return {"m": m, "nested": draw(st.booleans()), "id": rid, "usage": draw(gens.usage()), "kind": draw(st.integers(0, 6))}


def grown(c, k):
    if c["nested"]:
        m = []
        for _ in range(k):
            m = [{"t": "coll", "kind": c["kind"], "usage": c["usage"], "m": c["m"] + m}]
    else:
        m = c["m"] * k
    t = {"t": "coll", "kind": 1, "usage": 0x10006, "m": m}
    return {"t": "top", "m": [{"t": "report", "id": c["id"], "m": [t]} if c["id"] else t]}


def check_tree(c):
    n = sum(1 for x in c["m"] for _ in gens.walk(x))
    ks = sized(n, 30)
    whole(c, [4, 8, 16, 32] if c["nested"] and ks[0] > 8 else ks, grown)
    return {"nt" if c["m"] else "empty", "nested" if c["nested"] else "row"}


def whole(c, ks, make):
    trees = {}

    def build(k):
        trees[k] = hr.build_guarded(make(c, k))

    def text(opt, fmt):
        return lambda k: hr.compile_tree(trees[k], opt, fmt)

    for k in ks:
        build(k)
    growth("compile -N", LINEAR, text(False, "binary"), ks)
    growth("compile -N to code", LINEAR, text(False, "code"), ks)
    growth("compile", SQUARE, text(True, "binary"), ks)
    growth("dump", LINEAR, lambda k: hr.dump(trees[k]), ks)
    for opt in (False, True):
        blob = {k: hr.compile_tree(trees[k], opt) for k in ks}
        if not blob[ks[0]]:
            continue
        back = {}

        def decompile(k):
            back[k] = hr.extract(blob[k])[0]

        growth("decompile", LINEAR, decompile, ks)
        growth("dump what got decompiled", LINEAR, lambda k: hr.dump(back[k]), ks)


def check_row(r):
    """Long rows, each twice as long as the one before"""
    n = min(r["n"], 130)
    at = r["at"] / r["n"] if r["at"] else None

    def make(r, k):
        return hr_top(gens.row_tree(dict(r, n=k, at=None if at is None else max(1, int(at * k)))))

    ks = [n // 2 + 1, n + 2, 2 * n + 4] if r["shape"] in ("row", "named") else [15, 30, 60]
    whole(r, ks, make)
    return {"nt", r["shape"]}


def hr_top(t):
    return {"t": "top", "m": [t]}


LAYOUT = ["/*", "/**", "//", "0x1, ", " ", "\n", "\t", "\r\n", "/* */", "/*, 0x11, */", "//\n", "// /* */ 0x22,\n", "/***/", "/* // */", "*", "/", ",",
          "0", "x", "g", "\"", "0x", "\\", "(", "-", "_", "\u00e9"]


@st.composite
def layout(draw):
    some = st.one_of(st.sampled_from(LAYOUT[:4]).map(lambda x: [x]), st.lists(st.sampled_from(LAYOUT), max_size=3))
    return {"fmt": draw(st.sampled_from(["code", "code", "hex"])), "a": draw(some),
            "b": draw(st.one_of(st.sampled_from(LAYOUT).map(lambda x: [x]),
                                st.lists(st.sampled_from(LAYOUT), min_size=1, max_size=4))), "c": draw(some)}


def check_layout(c):
    """Whatever fills it up, text gets read or refused, in proportion to its length"""
    a, b, z = ("".join(c[k]) for k in "abc")
    got = []

    def read(k):
        s = hr.Sink()
        try:
            hr.parse_text(c["fmt"], hr.source_of(c["fmt"], a + b * k + z), s)
            got.append("read")
        except Exception:
            got.append("refused")

    growth("reading %s: %r, k times %r, %r" % (c["fmt"], a, b, z), LINEAR, read, [16, 32, 64])
    read(20000)
    return {"nt", got[-1]}


def check_junk(data):
    """Any bytes are read or refused, by parser, optimizer and decompiler"""
    blob = bytes(data)
    l = {"nt"} if len(blob) > 3 else set()
    for make in (hr.Sink, lambda: hr.optimizer.Optimizer.new(hr.Sink())):
        try:
            hr.parse_text("binary", hr.source_of("binary", blob), make())
            l.add("read")
        except Exception:
            l.add("refused")
    return l


BIG = [255, 256, 1000, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24]


@st.composite
def numbers(draw):
    way = draw(st.sampled_from(gens.WAYS))
    return {"way": way, "size": draw(st.sampled_from([1, 3, 8, 255] + BIG)), "count": draw(st.sampled_from([1, 2] + BIG)),
            "alignment": draw(st.sampled_from([0, 1, 8, 64] + BIG)), "pad": draw(st.sampled_from([1, 7] + BIG)),
            "align": draw(st.sampled_from([2, 8] + BIG)), "usage": draw(gens.usage()),
            "span": draw(st.sampled_from([0, 2, 100, 40000])), "last": draw(st.sampled_from([1, 0xffff] + BIG)),
            "max": draw(st.sampled_from([1] + BIG)), "var": draw(st.booleans())}


def check_numbers(c):
    """Neither compiling nor converting takes longer for larger numbers"""
    def tree(c):
        val = {"t": "val", "way": c["way"], "usage": c["usage"], "size": c["size"], "count": c["count"], "logicalMin": 0,
               "logicalMax": c["max"], "alignment": c["alignment"]}
        small = dict(val, size=3, count=1, alignment=0)
        return {"t": "top", "m": [small, val, {"t": "pad", "way": c["way"], "size": c["pad"]}, small,
                                  {"t": "align", "way": c["way"], "boundary": c["align"]}, small]}

    def items(c):
        return [["UsagePage", c["usage"] >> 16], ["Usage", 1], ["Collection", 1], ["LogicalMinimum", 0],
                ["LogicalMaximum", c["max"]], ["ReportSize", c["size"]], ["ReportCount", c["count"]],
                ["UsageMinimum", c["span"]], ["UsageMaximum", c["span"] + c["last"]], ["StringMinimum", 1],
                ["StringMaximum", c["last"]], [c["way"], 2 * c["var"]], ["DesignatorMinimum", 0],
                ["DesignatorMaximum", c["last"]], ["ReportCount", c["pad"]], ["Usage", 2], [c["way"], 3], ["EndCollection", 0]]

    little = dict(c, size=8, count=2, alignment=2, pad=3, align=8, span=1, last=3, max=1)
    for opt in (False, True):
        n = []
        for x in (little, c):
            d = hr.build_guarded(tree(x))
            n.append(steps(lambda: hr.compile_tree(d, opt)))
        require(n[1] <= LINEAR * n[0] + SLACK, "compiling %r takes %d steps, %d with small numbers", c, n[1], n[0])
        n = [steps(lambda: hr.convert("binary", b, "code", opt)) for b in (ref.encode(items(little)), ref.encode(items(c)))]
        require(n[1] <= LINEAR * n[0] + SLACK, "converting %s takes %d steps, %d with small numbers",
                ref.encode(items(c)).hex(), n[1], n[0])
    return {"nt"} | {"big:" + k for k in ("size", "count", "alignment", "pad", "align", "last", "max") if c[k] > 300}


def check_lookup(ids):
    """Looking a usage up takes as long whatever was looked up before"""
    def look(k):
        for i in range(k):
            for u in ids:
                str(hr.Usage.lookup((u + (i << 16 | i)) & 0xffffffff))

    growth("looking %r up" % (ids,), LINEAR, look, [50, 100, 200, 400])
    return {"nt"}


PROPERTY = Property(
    "C26",
    "a generated part (stream, description, filling of a text) is taken k, 2k, 4k times, in a row or nested, through each "
    "operation, whose calls, loop turns and resumptions get counted: what a doubling adds may not exceed 2.5 times (6 for the optimizer) what "
    "the doubling before added; non-trivial when the part is more than two items or holds members",
    [
        Facet("stream", check_stream, st.one_of(gens.stream(segments=4), gens.neighbours(), gens.locals_mix(),
                                                gens.stacked()), examples=60, nontrivial=("nt",), thorough=20),
        Facet("back", check_back, st.one_of(decomp.stream(segments=4), decomp.nary_stream()), examples=60,
              nontrivial=("nt",), thorough=20),
        Facet("pairs", check_pairs, pairs(), examples=40, nontrivial=("nt",), thorough=20),
        Facet("tree", check_tree, part(), examples=60, nontrivial=("nt",), thorough=20),
        Facet("row", check_row, gens.row(), examples=25, nontrivial=("nt",), thorough=20),
        Facet("layout", check_layout, layout(), examples=200, nontrivial=("nt",), thorough=40),
        Facet("junk", check_junk, st.lists(st.integers(0, 255), max_size=60), examples=300, nontrivial=("nt",), thorough=40),
        Facet("numbers", check_numbers, numbers(), examples=120, nontrivial=("nt",), thorough=40),
        Facet("lookup", check_lookup, st.lists(gens.usage(), min_size=1, max_size=4), examples=30, nontrivial=("nt",),
              thorough=20),
    ])
