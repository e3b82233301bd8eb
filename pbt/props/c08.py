"""Compiling without optimizing gives exactly the described fields"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require


def compare(tree, blob, what):
    want = ref.tree_meaning(tree)
    for page_at in ("main", "usage"):
        try:
            got = ref.interpret(blob, page_at=page_at)
        except ref.Malformed as e:
            require(False, "%s: malformed output %s: %s", what, blob.hex(), e)
        require(got.open_collections == 0, "%s: %d collections left open: %s", what, got.open_collections, blob.hex())
        d = ref.diff(ref.normal(want, coalesce=True), ref.normal(got, coalesce=True), "described", "compiled")
        require(d is None, "%s (page resolved at %s): %s; %s", what, page_at, d, blob.hex())
    pads = lambda m: sorted((f[0], f[1], f[2], f[3]) for f in merged_pads(m))
    require(pads(want) == pads(got), "%s: padding should be %r, is %r; %s", what, pads(want), pads(got), blob.hex())


def merged_pads(m):
    """Constant bits as maximal (way, id, offset, size) intervals"""
    spans = {}
    for f in m.fields:
        if f[4] & ref.CONST and f[3]:
            spans.setdefault((f[0], f[1]), []).append((f[2], f[3]))
    for (way, rid), l in spans.items():
        l.sort()
        cur = None
        for off, size in l:
            if cur and cur[0] + cur[1] == off:
                cur = (cur[0], cur[1] + size)
            else:
                if cur:
                    yield (way, rid) + cur
                cur = (off, size)
        if cur:
            yield (way, rid) + cur


def check_plain(tree):
    blob = hr.compile_tree(hr.build_guarded(tree), False)
    compare(tree, blob, "compile -N")
    l = gens.tree_labels(tree)
    if not {"values:0", "values:1-3"} & l:
        l.add("nt")
    return l


# -------------------------------- extreme property values, one value at a time

@st.composite
def extreme(draw):
    e = {"t": "val", "way": draw(st.sampled_from(gens.WAYS)), "usage": draw(st.one_of(st.none(), gens.usage())),
         "size": draw(st.one_of(gens.sizes, st.integers(1, 70000))),
         "flags": draw(st.integers(0, 127)) << 2 | draw(st.sampled_from([0, 2])),
         "logicalMin": draw(gens.s32), "logicalMax": draw(gens.s32),
         "unit": draw(st.one_of(gens.units, gens.u32)), "unitExponent": draw(st.integers(-8, 7)),
         "string": draw(st.one_of(st.just(0), gens.index, st.integers(0, 70000))),
         "designator": draw(st.one_of(st.just(0), gens.index, st.integers(0, 70000))),
         "count": draw(st.sampled_from([1, 1, 2, 7, 255, 256]))}
    if draw(st.booleans()):
        e["physicalMin"], e["physicalMax"] = draw(gens.s32), draw(gens.s32)
    rid = draw(st.one_of(st.just(0), st.integers(1, 255)))
    c = {"t": "coll", "kind": draw(st.one_of(st.integers(0, 6), st.integers(0, 255))),
         "usage": draw(gens.usage()), "m": [e]}
    return {"t": "report", "id": rid, "m": [c]} if rid else c


PROPERTY = Property(
    "C08",
    "generated descriptor trees (reports, collections, values, named arrays, padding, alignment); "
    "non-trivial with 4 values or more; extreme: one value with 32-bit boundary properties",
    [
        Facet("tree", check_plain, gens.tree(), examples=1000, nontrivial=("nt",), thorough=40),
        Facet("row", lambda r: check_plain(gens.row_tree(r)), gens.row(), examples=30, nontrivial=("nt",), thorough=20),
        Facet("late", lambda c: check_plain(gens.late_members(c)), gens.late_tree(), examples=60, nontrivial=("nt",),
              thorough=20),
        Facet("extreme", lambda t: check_plain(t) | {"nt"}, extreme(), examples=600, nontrivial=("nt",), thorough=40),
    ])
