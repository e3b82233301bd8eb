"""Decompiled script is valid Python that rebuilds the very same description"""
import ast

from hypothesis import strategies as st

from .. import decomp, gens, hr, ref
from ..core import Facet, Property, require, sut


def same(a, b, text, what):
    x, y = hr.tree_json(a), hr.tree_json(b)
    if x != y:
        require(False, "%s: script rebuilds %r, it stands for %r; script:\n%s", what, *first_diff(y, x), text)


def first_diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and a.get("t") == b.get("t") and "m" in a:
        rest = {k: v for k, v in a.items() if k != "m"}, {k: v for k, v in b.items() if k != "m"}
        if rest[0] == rest[1]:
            for p, q in zip(a["m"], b["m"]):
                if p != q:
                    return first_diff(p, q)
    return a, b


def round_trip(root, what):
    text = hr.dump(root)
    with sut("%s: script is not valid Python" % what):
        ast.parse(text)
    again = hr.exec_script(text)
    same(root, again, text, what)
    text2 = hr.dump(again)
    same(root, hr.exec_script(text2), text2, what + ", dumped again")
    return text


def check_stream(items):
    blob = ref.encode(items)
    root, _ = hr.extract(blob)
    round_trip(root, "decompile %s" % blob.hex())
    return decomp.labels(items)


def check_tree(tree):
    d = hr.build_guarded(tree)
    round_trip(d, "dump")
    l = gens.tree_labels(tree)
    return l | ({"nt"} if "values:0" not in l else set())


PROPERTY = Property(
    "C13",
    "script of decompiled streams and of generated descriptors gets run, and rebuilt objects compared attribute by "
    "attribute; non-trivial when there is a data item",
    [
        Facet("stream", check_stream, decomp.stream(), examples=700, nontrivial=("nt",), thorough=40),
        Facet("nary", check_stream, decomp.nary_stream(), examples=300, nontrivial=("nt",), thorough=40),
        Facet("row", lambda r: check_tree(gens.row_tree(r)), gens.row(), examples=30, nontrivial=("nt",), thorough=20),
        Facet("late", lambda c: check_stream(decomp.expressible(gens.late_items(c, 250))),
              gens.late(st.one_of(decomp.stream(segments=4), decomp.nary_stream())), examples=40, nontrivial=("nt",),
              thorough=20),
        Facet("late_tree", lambda c: check_tree(gens.late_members(c)), gens.late_tree(), examples=40, nontrivial=("nt",),
              thorough=20),
        Facet("tree", check_tree, gens.tree(), examples=600, nontrivial=("nt",), thorough=40),
    ])
