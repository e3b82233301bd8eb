"""Decompiling finds the fields and collections a descriptor declares"""
from hypothesis import strategies as st

from .. import decomp, gens, hr, ref
from ..core import Facet, Property, require


def check_tree(items):
    blob = ref.encode(items)
    want = decomp.blob_norm(blob)
    root, noise = hr.extract(blob)
    require(noise == "", "decompiling writes to standard output: %r", noise[:200])
    got = ref.tree_meaning(hr.tree_json(root))
    d = ref.diff(want, decomp.norm(got), "declared", "decompiled")
    require(d is None, "%s; %s", d, blob.hex())
    return decomp.labels(items)


@st.composite
def compiled(draw):
    return [draw(gens.tree()), draw(st.booleans())]


def check_compiled(case):
    """Decompiling what got compiled gives the description back"""
    tree, opt = case
    blob = hr.compile_tree(hr.build_guarded(tree), opt)
    if not blob:
        return {"empty"}
    root, noise = hr.extract(blob)
    d = ref.diff(decomp.norm(ref.tree_meaning(tree)), decomp.norm(ref.tree_meaning(hr.tree_json(root))),
                 "described", "decompiled")
    require(d is None, "%s; %s", d, blob.hex())
    l = gens.tree_labels(tree)
    return l | ({"nt"} if "values:0" not in l else set())


def check_optimized(items):
    """Optimized or not, a descriptor decompiles to the same fields"""
    blob = ref.encode(items)
    opt = hr.optimize_blob(blob)
    a, _ = hr.extract(blob)
    b, _ = hr.extract(opt)
    d = ref.diff(decomp.norm(ref.tree_meaning(hr.tree_json(a))), decomp.norm(ref.tree_meaning(hr.tree_json(b))),
                 "from original", "from optimized")
    require(d is None, "%s; %s -> %s", d, blob.hex(), opt.hex())
    return decomp.labels(items)


PROPERTY = Property(
    "C12",
    "generated item streams within the descriptor language, and compiled generated descriptors; "
    "non-trivial when there is a data item",
    [
        Facet("stream", check_tree, decomp.stream(), examples=900, nontrivial=("nt",), thorough=40),
        Facet("nary", check_tree, decomp.nary_stream(), examples=400, nontrivial=("nt",), thorough=40),
        Facet("row", lambda r: check_tree(decomp.expressible(gens.row_items(r))), gens.row(), examples=40,
              nontrivial=("nt",), thorough=20),
        Facet("late", lambda c: check_tree(decomp.expressible(gens.late_items(c, 250))),
              gens.late(st.one_of(decomp.stream(segments=4), decomp.nary_stream())), examples=60, nontrivial=("nt",),
              thorough=20),
        Facet("compiled", check_compiled, compiled(), examples=500, nontrivial=("nt",), thorough=40),
        Facet("optimized", check_optimized, decomp.stream(segments=8), examples=400, nontrivial=("nt",), thorough=40),
    ])
