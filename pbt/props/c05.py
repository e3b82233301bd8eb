"""Optimizer preserves the meaning of any item stream"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require


def same_meaning(before, after, what):
    for mode, a, b in zip(("main", "usage"), ref.meanings(before), ref.meanings(after)):
        d = ref.diff(a, b, "before", "after")
        require(d is None, "%s: meaning changed (page resolved at %s): %s; %s -> %s",
                what, mode, d, before.hex(), after.hex())


def legal(blob):
    """Generator sanity: both page resolution rules agree on the input"""
    a, b = ref.meanings(blob)
    assert a == b, blob.hex()


def labels(items, before, after):
    l = gens.stream_labels(items)
    na = sum(n in ref.DATA for n, v in ref.items_of(before))
    nb = sum(n in ref.DATA for n, v in ref.items_of(after))
    if nb < na:
        l.add("merged")
    if before != after:
        l.add("changed")
    if len(after) < len(before):
        l.add("smaller")
    return l


def check_blob(items):
    blob = ref.encode(items)
    legal(blob)
    out = hr.optimize_blob(blob)
    same_meaning(blob, out, "converter -O")
    return labels(items, blob, out)


def check_items(items):
    blob = ref.encode(items)
    legal(blob)
    out = hr.optimize_items(items)
    same_meaning(blob, out, "optimizer")
    return labels(items, blob, out)


def check_long(c):
    blob = ref.encode(c["items"]) * c["times"]
    legal(blob)
    out = hr.optimize_blob(blob)
    same_meaning(blob, out, "converter -O")
    return labels(c["items"], blob, out)


NT = ("merged", "smaller")

PROPERTY = Property(
    "C05",
    "a case is non-trivial when the optimizer merged data items or shortened the stream",
    [
        Facet("blob", check_blob, gens.stream(), examples=1500, nontrivial=NT, thorough=40),
        Facet("neighbours", check_blob, gens.neighbours(), examples=1200, nontrivial=NT, thorough=40),
        Facet("locals", check_blob, gens.locals_mix(), examples=1200, nontrivial=NT, thorough=40),
        Facet("stacked", check_blob, gens.stacked(), examples=1200, nontrivial=NT, thorough=40),
        Facet("long", check_long, gens.long_stream(4000), examples=24, nontrivial=NT, thorough=20),
        Facet("row", lambda r: check_blob(gens.row_items(r)), gens.row(), examples=60, nontrivial=NT, thorough=20),
        Facet("late", lambda c: check_blob(gens.late_items(c)), gens.late(st.one_of(gens.stream(segments=4), gens.neighbours(), gens.stacked())),
              examples=120, nontrivial=NT, thorough=20),
        Facet("items", check_items, gens.stream(widen=False), examples=700, nontrivial=NT, thorough=40),
    ])
