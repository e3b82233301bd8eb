"""Layout: fields are where alignment says, padding is minimal, nothing overlaps"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require

BOUNDS = [0, 1, 2, 3, 4, 5, 7, 8, 8, 8, 9, 12, 16, 24, 32, 64, 128]
bounds = st.one_of(st.sampled_from(BOUNDS), st.integers(2, 600))


@st.composite
def bits(draw):
    """Flat sequence of placements over several reports, {"rep": [[id, [...]]...]}"""
    ids = draw(st.one_of(st.sampled_from([[0], [1], [1, 2], [1, 2, 255]]),
                         st.lists(gens.report_ids, min_size=1, max_size=4, unique=True)))
    segs = []
    serial = 0
    for _ in range(draw(st.integers(1, 5))):
        seq = []
        for _ in range(draw(st.integers(1, 6))):
            way = draw(st.sampled_from(["Input", "Input", "Input", "Output", "Feature"]))
            k = draw(st.integers(0, 9))
            if k < 6:
                serial += 1
                e = {"t": "val", "way": way, "usage": 0xff000000 | serial, "size": draw(gens.sizes),
                     "logicalMin": 0, "logicalMax": 1}
                if draw(st.integers(0, 2)) == 0:
                    e["alignment"] = draw(bounds)
                if draw(st.integers(0, 3)) == 0:
                    e["count"] = draw(st.one_of(st.sampled_from([1, 2, 3, 5, 8, 17]), gens.counts))
                if draw(st.integers(0, 5)) == 0:
                    e["named"] = {"list": [0xff010001, 0xff010002, 0xff010003]}
                    e.pop("logicalMax")
            elif k == 6:
                e = {"t": "pad", "way": way, "size": draw(st.one_of(st.integers(1, 33), st.integers(1, 600)))}
            elif k < 9:
                e = {"t": "align", "way": way, "boundary": draw(bounds.map(lambda b: b or 1))}
            else:
                e = {"t": "val", "way": way, "usage": None, "size": draw(st.integers(1, 20)), "flags": 1,
                     "count": draw(st.integers(1, 3)), "alignment": draw(st.sampled_from([1, 8, 4]))}
            seq.append(e)
        rid = draw(st.sampled_from(ids))
        if not segs and draw(st.integers(0, 3)) == 0:
            rid = 0         # before any report
        segs.append([rid, draw(gens.weighted((3, 0), (3, 1), (2, 2))), seq])
    return segs


def tree_of(segs):
    m = []
    tops = [m]
    for rid, nest, seq in segs:
        x = list(seq)
        if nest == 2 and m:
            m = []
            tops.append(m)
        if nest == 1:
            x = [{"t": "coll", "kind": 2, "usage": 0x10001, "m": x}]
        m += [{"t": "report", "id": rid, "m": x}] if rid else x
    apps = [{"t": "coll", "kind": 1, "usage": 0x10006, "m": m} for m in tops]
    return apps[0] if len(apps) == 1 else {"t": "top", "m": apps}


def check_layout(segs):
    tree = tree_of(segs)
    d = hr.build_guarded(tree)
    l = set()
    for opt in (False, True):
        what = "compile" if opt else "compile -N"
        blob = hr.compile_tree(d, opt)
        try:
            m = ref.interpret(blob)
        except ref.Malformed as e:
            require(False, "%s: malformed output: %s", what, e)
        # (way, id) -> list of (offset, size, constant, usages)
        got = {}
        for f in m.fields:
            got.setdefault((f[0], f[1]), []).append((f[2], f[3], bool(f[4] & 1), f[9]))
        pos = {}
        for rid, nest, seq in segs:
            for e in seq:
                key = (e["way"], rid)
                at = pos.get(key, 0)
                fields = got.get(key, [])
                if e["t"] == "pad":
                    want = at + e["size"]
                    require(constant(fields, at, want), "%s: Padding of %d bits missing at %d of %r: %s",
                            what, e["size"], at, key, blob.hex())
                    pos[key] = want
                    continue
                if e["t"] == "align":
                    b = e["boundary"]
                else:
                    b = e.get("alignment", min(8, e["size"]))
                    l.add("aligned" if b > 1 else "packed")
                start = at if b <= 1 else (at + b - 1) // b * b
                if start > at:
                    l.add("padded")
                    require(constant(fields, at, start), "%s: bits %d to %d of %r should be padding: %s",
                            what, at, start, key, blob.hex())
                pos[key] = start
                if e["t"] == "align":
                    continue
                n = e.get("count", 1)
                if e.get("flags") == 1:
                    require(constant(fields, start, start + n * e["size"]),
                            "%s: constant value missing at %d of %r: %s", what, start, key, blob.hex())
                else:
                    us = (tuple(e["named"]["list"]),) if e.get("named") else ((e["usage"],),)
                    for i in range(n):
                        o = start + i * e["size"]
                        require((o, e["size"], False, us[0]) in fields,
                                "%s: no field of %d bits for %r at bit %d of %r: %s",
                                what, e["size"], us[0], o, key, blob.hex())
                pos[key] = start + n * e["size"]
        sizes = {k: max(o + s for o, s, c, u in v) for k, v in got.items()}
        require({k: v for k, v in pos.items() if v} == {k: v for k, v in sizes.items() if v},
                "%s: report sizes %r, expected %r: %s", what, sizes, pos, blob.hex())
    return l


def constant(fields, a, b):
    """Bits a to b are all covered by constant fields lying within them or beyond"""
    for o, s, c, u in fields:
        if o < b and a < o + s and not c:
            return False
    cover = sum(min(b, o + s) - max(a, o) for o, s, c, u in fields if c and o < b and a < o + s)
    return cover == b - a


PROPERTY = Property(
    "C10",
    "sequences of values, padding and alignment over several reports and ways; non-trivial when some alignment "
    "needs padding bits",
    [Facet("layout", check_layout, bits(), examples=1800, nontrivial=("padded",), thorough=40)])
