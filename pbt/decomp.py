"""Streams the decompiler's descriptor language is able to express"""
from hypothesis import strategies as st

from . import gens, hr, ref


def expressible(items):
    """Bring a generated stream in the domain of the descriptor language:
    - arrays have a usage for each index, or one usage at most,
    - arrays have one string and one designator at most,
    - a report ID, if any is used, is set from the start.
    """
    out = []
    ids = [i[1] for i in items if i[0] == "ReportID"]
    if ids:
        out.append(["ReportID", ids[0]])
    g, stack = {"LogicalMinimum": 0, "LogicalMaximum": 0}, []
    loc = []
    for i in items:
        name, value = i[0], i[1]
        kind = ref.TAGS[name][0]
        if name == "Push":
            stack.append(dict(g))
        elif name == "Pop":
            g = stack.pop()
        elif kind == ref.GLOBAL:
            g[name] = value
        if kind == ref.LOCAL:
            loc.append(i)
            continue
        if name in ref.DATA and not value & 3:
            n = 0
            for x in loc:
                if x[0] == "Usage":
                    n += 1
                elif x[0] == "UsageMinimum":
                    n -= x[1]
                elif x[0] == "UsageMaximum":
                    n += x[1] + 1
            for base in ("String", "Designator"):
                mine = [x for x in loc if x[0].startswith(base)]
                if len(mine) > 1 or any(not x[0].endswith("Index") for x in mine):
                    loc = [x for x in loc if x not in mine]
            if n > 1:
                if g["LogicalMinimum"] + n - 1 > 2**31 - 1:
                    out.append(["LogicalMinimum", 0])
                    g["LogicalMinimum"] = 0
                g["LogicalMaximum"] = g["LogicalMinimum"] + n - 1
                out.append(["LogicalMaximum", g["LogicalMaximum"]])
        if kind == ref.MAIN:
            out += loc
            loc = []
        out.append(i)
    return gens.bounded(out)


@st.composite
def stream(draw, **kw):
    kw.setdefault("delim", False)
    kw.setdefault("top_level", False)
    if draw(st.integers(0, 3)) == 0:
        return expressible(draw(gens.neighbours()))
    return expressible(draw(gens.stream(**kw)))


@st.composite
def nary_collection(draw, depth, tower=False):
    items = []
    if tower:
        # collections of one member each, down to a single array
        up = draw(st.integers(1, 2))
        for _ in range(up):
            u = draw(st.sampled_from(gens.NARY))
            items += [["UsagePage", u >> 16], ["Usage", u & 0xffff], ["Collection", 2]]
        return items + draw(nary_collection(3)) + [["EndCollection", 0]] * up
    u = draw(st.one_of(st.sampled_from(gens.NARY), st.sampled_from(gens.NARY), st.sampled_from(gens.NOT_NARY),
                       gens.usage()))
    if draw(st.integers(0, 9)):
        items += [["UsagePage", u >> 16], ["Usage", u & 0xffff]]
    items.append(["Collection", draw(st.sampled_from([2, 2, 2, 2, 0, 4, 1]))])
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 0]))):
        what = draw(gens.weighted((6, "array"), (1, "plain"), (1, "const"), (2 if depth < 3 else 0, "coll")))
        if what == "coll":
            items += draw(nary_collection(depth + 1))
            continue
        n = draw(st.integers(1 if what == "array" else 0, 6))
        lmin = draw(st.sampled_from([0, 1, 1, -1, 5]))
        pg = draw(gens.page())
        items += [["UsagePage", pg], ["LogicalMinimum", lmin], ["LogicalMaximum", lmin + n - 1],
                  ["ReportSize", draw(gens.sizes)], ["ReportCount", draw(st.sampled_from([1, 1, 1, 2, 3, 6]))]]
        if what == "array":
            a = draw(st.integers(0, 300))
            k = draw(st.integers(0, 2))
            if k == 0:
                items += [["UsageMinimum", a], ["UsageMaximum", a + n - 1]]
            elif k == 1:
                items += [["Usage", a + i] for i in range(n)]
            else:
                items += [["Usage", draw(gens.usage_id())] for i in range(n)]
        if what != "const" and draw(st.integers(0, 4)) == 0:
            items.append(["StringIndex", draw(gens.index)])
        if what != "const" and draw(st.integers(0, 4)) == 0:
            items.append(["DesignatorIndex", draw(gens.index)])
        f = draw(st.sampled_from([0, 0, 0, 2, 4, 0x40, 0x100, 0x20]))
        items.append([draw(st.sampled_from(gens.WAYS)), 3 if what == "const" else f])
    if draw(st.integers(0, 5)) == 0:
        items += [["Usage", 1], ["Collection", 0], ["EndCollection", 0]]
    return items + [["EndCollection", 0]]


@st.composite
def nary_stream(draw):
    """Selector arrays in logical collections, the way HID documents them"""
    items = [["UsagePage", 1], ["Usage", 6], ["Collection", 1]]
    if draw(st.booleans()):
        items.insert(0, ["ReportID", draw(gens.report_ids)])
    for _ in range(draw(st.integers(1, 4))):
        items += draw(nary_collection(3, True) if draw(st.integers(0, 3)) == 0 else nary_collection(0))
    items.append(["EndCollection", 0])
    return expressible(items)


def norm(m):
    return ref.normal(m, coalesce=True, arrays_plain=True)


def blob_norm(blob):
    a = norm(ref.interpret(blob, "main"))
    b = norm(ref.interpret(blob, "usage"))
    assert a == b, blob.hex()
    return a


def labels(items):
    l = gens.stream_labels(items)
    if "mains:0" not in l:
        l.add("nt")
    return l
