"""Optimizing compiler: same meaning, never larger"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require
from .c05 import same_meaning
from .c08 import compare, extreme


def usages_of(tree):
    for e in gens.walk(tree):
        if e.get("usage"):
            yield e["usage"]
        if e.get("named"):
            yield from ref.named_list(e["named"])


def check_tree(tree):
    d = hr.build_guarded(tree)
    plain = hr.compile_tree(d, False)
    opt = hr.compile_tree(d, True)
    compare(tree, opt, "compile")
    same_meaning(plain, opt, "compile vs compile -N")
    # splitting a usage which has 2-byte page and 2-byte id takes one more byte
    if all(u >> 16 < 256 or u & 0xffff < 256 for u in usages_of(tree)):
        require(len(opt) <= len(plain), "optimized descriptor is larger: %s (%d), -N gives %s (%d)",
                opt.hex(), len(opt), plain.hex(), len(plain))
    l = gens.tree_labels(tree)
    if len(opt) < len(plain):
        l.add("smaller")
    na = sum(n in ref.DATA for n, v in ref.items_of(plain))
    nb = sum(n in ref.DATA for n, v in ref.items_of(opt))
    if nb < na:
        l.add("merged")
    return l


PROPERTY = Property(
    "C09",
    "generated descriptor trees; non-trivial when the optimizer merged data items",
    [
        Facet("tree", check_tree, gens.tree(), examples=1200, nontrivial=("merged",), thorough=40),
        Facet("row", lambda r: check_tree(gens.row_tree(r)), gens.row(), examples=60, nontrivial=("merged",), thorough=20),
        Facet("late", lambda c: check_tree(gens.late_members(c)), gens.late_tree(), examples=80, nontrivial=("merged",),
              thorough=20),
        Facet("extreme", check_tree, extreme(), examples=300, nontrivial=("smaller",), thorough=40),
    ])
