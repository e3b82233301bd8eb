"""Named arrays: indices map to usages, one selector field per count"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require


@st.composite
def case(draw):
    v = draw(gens.named_value())
    before = draw(gens.run()) if draw(st.booleans()) else []
    after = draw(gens.run()) if draw(st.booleans()) else []
    if draw(st.integers(0, 3)) == 0:
        after = [draw(gens.named_value(v["way"]))] + after
    rid = draw(st.sampled_from([0, 0, 1, 200]))
    return {"before": before, "v": v, "after": after, "id": rid,
            "form": draw(st.sampled_from(["list", "tuple", "range"]))}


def check_named(c):
    v = c["v"]
    m = c["before"] + [v] + c["after"]
    tree = {"t": "coll", "kind": 1, "usage": 0x10006,
            "m": [{"t": "report", "id": c["id"], "m": m}] if c["id"] else m}
    d = hr.build_guarded(tree)
    us = tuple(ref.named_list(v["named"]))
    lmin = v.get("logicalMin", 1)
    for opt in (False, True):
        what = "compile" if opt else "compile -N"
        blob = hr.compile_tree(d, opt)
        try:
            mean = ref.interpret(blob)
        except ref.Malformed as e:
            require(False, "%s: malformed output: %s", what, e)
        found = [f for f in mean.fields
                 if not f[4] & 3 and f[9] == us and f[0] == v["way"] and f[3] == v["size"]
                 and f[5] == (lmin, lmin + len(us) - 1) and f[4] == v.get("flags", 0) & ~3]
        n = v.get("count", 1)
        alike = sum(x.get("named") is not None and ref.named_list(x["named"]) == list(us)
                    and x["way"] == v["way"] and x["size"] == v["size"]
                    and x.get("flags", 0) == v.get("flags", 0)
                    and x.get("logicalMin", 1) == lmin for x in m)
        if alike == 1:
            require(len(found) == n, "%s: %d array fields selecting among %s with indices %d to %d expected, %d found: %s",
                    what, n, ["0x%x" % u for u in us], lmin, lmin + len(us) - 1, len(found), blob.hex())
        else:
            require(len(found) >= n, "%s: array fields missing: %s", what, blob.hex())
        # holding collection bears the usage of the array
        if v.get("usage") and alike == 1:
            for f in found:
                c_ = mean.collections[f[12]]
                require(c_[1] == 2 and c_[2] == (v["usage"],) and c_[0] == 0,
                        "%s: array of usage 0x%x lies in collection %r: %s", what, v["usage"], c_, blob.hex())
        elif alike == 1:
            require(all(f[12] == 0 for f in found), "%s: array does not lie in its collection: %s", what, blob.hex())
        if alike == 1:
            s = (v["string"],) if v.get("string") else ()
            g = (v["designator"],) if v.get("designator") else ()
            for f in found:
                require(f[10] == s and f[11] == g, "%s: array has strings %r designators %r: %s", what, f[10], f[11],
                        blob.hex())
        # ordinary neighbours are untouched
        d_ = ref.diff(ref.normal(ref.tree_meaning(tree), coalesce=True),
                      ref.normal(mean, coalesce=True), "described", "compiled")
        require(d_ is None, "%s: %s; %s", what, d_, blob.hex())
    # the Value itself tells the bounds
    l = {"range" if "range" in v["named"] else "list", "usage" if v.get("usage") else "no-usage"}
    if len({u >> 16 for u in us}) > 1:
        l.add("mixed-pages")
    if len(us) > 1:
        l.add("nt")
    return l


PROPERTY = Property(
    "C11",
    "a named array (list or range, any usage, count, bounds) among other values; non-trivial: 2 usages or more",
    [Facet("named", check_named, case(), examples=1600, nontrivial=("nt",), thorough=40)])
