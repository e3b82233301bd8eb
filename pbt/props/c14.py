"""Decompile, run the script, compile: same descriptor"""
from hypothesis import strategies as st

from .. import decomp, gens, hr, ref
from ..core import Facet, Property, require


def cycle(blob, fmt="binary", data=None):
    root, noise = hr.extract(blob, fmt, data)
    require(noise == "", "decompiling writes to standard output: %r", noise[:200])
    d = hr.exec_script(hr.dump(root))
    return hr.compile_tree(d, False), hr.compile_tree(d, True)


def compare(want, blob, what, orig):
    for page_at in ("main", "usage"):
        try:
            got = ref.interpret(blob, page_at)
        except ref.Malformed as e:
            require(False, "%s: malformed: %s; %s -> %s", what, e, orig.hex(), blob.hex())
        d = ref.diff(want, decomp.norm(got), "original", "recompiled")
        require(d is None, "%s: %s; %s -> %s", what, d, orig.hex(), blob.hex())


def check_stream(items):
    blob = ref.encode(items)
    want = decomp.blob_norm(blob)
    plain, opt = cycle(blob)
    compare(want, plain, "decompile, compile -N", blob)
    compare(want, opt, "decompile, compile", blob)
    return decomp.labels(items)


def check_again(tree):
    """Compiled descriptors, twice through"""
    blob = hr.compile_tree(hr.build_guarded(tree), True)
    if not blob:
        return {"empty"}
    plain, opt = cycle(blob)
    want = decomp.norm(ref.tree_meaning(tree))
    compare(want, plain, "compile, decompile, compile -N", blob)
    compare(want, opt, "compile, decompile, compile", blob)
    plain2, opt2 = cycle(opt)
    compare(want, opt2, "second decompile, compile", opt)
    l = gens.tree_labels(tree)
    return l | ({"nt"} if "values:0" not in l else set())


PROPERTY = Property(
    "C14",
    "generated streams and compiled descriptors go through the decompiler, its script gets run, the outcome is "
    "compiled with and without optimizer; non-trivial when there is a data item",
    [
        Facet("stream", check_stream, decomp.stream(), examples=700, nontrivial=("nt",), thorough=40),
        Facet("nary", check_stream, decomp.nary_stream(), examples=300, nontrivial=("nt",), thorough=40),
        Facet("row", lambda r: check_stream(decomp.expressible(gens.row_items(r))), gens.row(), examples=40,
              nontrivial=("nt",), thorough=20),
        Facet("late", lambda c: check_stream(decomp.expressible(gens.late_items(c, 250))),
              gens.late(st.one_of(decomp.stream(segments=4), decomp.nary_stream())), examples=60, nontrivial=("nt",),
              thorough=20),
        Facet("again", check_again, gens.tree(), examples=400, nontrivial=("nt",), thorough=40),
    ])
