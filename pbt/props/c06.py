"""Any part of the optimizer pipeline, applied any number of times, preserves meaning"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require
from .c05 import same_meaning, legal, labels

CUTS = [0, 5, 10, 15, 20, 25, 30, 32, 35, 38, 40, 45, 50, 55, 60, 65, 70, 75, 100]


@st.composite
def window(draw):
    a = draw(st.sampled_from(CUTS[:-1]))
    b = draw(st.sampled_from([c for c in CUTS if c > a]))
    return [a, b]


@st.composite
def case(draw):
    return {"items": draw(st.one_of(gens.stream(segments=9), gens.neighbours(), gens.locals_mix(), gens.stacked())), "windows": draw(st.lists(window(), min_size=1, max_size=3))}


def check_windows(c):
    blob = ref.encode(c["items"])
    legal(blob)
    cur = blob
    hr.optimize_items(c["items"], c["windows"][0])      # ends its output once
    for w in c["windows"]:
        cur = hr.optimize_blob(cur, window=w)
        same_meaning(blob, cur, "passes %r" % (c["windows"],))
    return labels(c["items"], blob, cur) | {"windows:%d" % len(c["windows"])}


@st.composite
def single(draw):
    """One pass at a time, on streams it has something to do with"""
    return {"items": draw(st.one_of(gens.stream(segments=9), gens.neighbours(), gens.locals_mix(), gens.stacked())),
            "windows": [draw(st.sampled_from([[5, 15], [15, 25], [25, 32], [32, 38], [38, 45], [45, 55],
                                              [55, 65], [65, 75]]))]}


@st.composite
def compiled(draw):
    return {"tree": draw(gens.tree()), "windows": draw(st.lists(window(), min_size=1, max_size=2))}


def check_compiled(c):
    d = hr.build_guarded(c["tree"])
    plain = hr.compile_tree(d, False)
    cur = hr.compile_tree(d, True, window=c["windows"][0])
    same_meaning(plain, cur, "compile with passes %r" % (c["windows"][0],))
    for w in c["windows"][1:]:
        cur = hr.optimize_blob(cur, window=w)
        same_meaning(plain, cur, "compile with passes %r" % (c["windows"],))
    return gens.tree_labels(c["tree"]) | ({"changed"} if cur != plain else set())


NT = ("merged", "changed", "smaller")
PROPERTY = Property(
    "C06",
    "windows of optimization passes (Optimizer.new(stream, min, max)), chained; non-trivial when output differs "
    "from input",
    [
        Facet("windows", check_windows, case(), examples=800, nontrivial=NT, thorough=40),
        Facet("single", check_windows, single(), examples=800, nontrivial=NT, thorough=40),
        Facet("row", lambda c: check_windows({"items": gens.row_items(c[0]), "windows": c[1]}),
              st.tuples(gens.row(), st.lists(window(), min_size=1, max_size=2)).map(list), examples=40, nontrivial=NT,
              thorough=20),
        Facet("late", lambda c: check_windows({"items": gens.late_items(c[0]), "windows": c[1]}),
              st.tuples(gens.late(st.one_of(gens.stream(segments=4), gens.neighbours(), gens.stacked())),
                        st.lists(window(), min_size=1, max_size=2)).map(list), examples=60, nontrivial=NT, thorough=20),
        Facet("compiled", check_compiled, compiled(), examples=400, nontrivial=NT, thorough=40),
    ])
