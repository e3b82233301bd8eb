"""Reports do not interfere: each report is laid out as if alone"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require


def keep(e, rid, way, want):
    """Copy of the tree with only the values of one report"""
    t = e["t"]
    if t in ("top", "coll", "report"):
        r = e["id"] if t == "report" else rid
        m = [keep(x, r, way, want) for x in e["m"]]
        return dict(e, m=[x for x in m if x is not None])
    return e if (rid, e["way"]) == want else None


def joined(e):
    """Copy of the tree where successive parts of a report are made one"""
    if "m" not in e:
        return e
    m = []
    for x in e["m"]:
        x = joined(x)
        if x["t"] == "report" and m and m[-1]["t"] == "report" and m[-1]["id"] == x["id"]:
            m[-1] = dict(x, m=m[-1]["m"] + x["m"])
        else:
            m.append(x)
    return dict(e, m=m)


def dropped(e):
    """Copy of the tree without empty reports"""
    if "m" not in e:
        return e
    m = [dropped(x) for x in e["m"]]
    return dict(e, m=[x for x in m if x["t"] != "report" or x["m"]])


def fields(tree, opt):
    blob = hr.compile_tree(hr.build_guarded(tree), opt)
    try:
        m = ref.interpret(blob)
    except ref.Malformed as e:
        require(False, "malformed output %s: %s", blob.hex(), e)
    out = {}
    for f in m.fields:
        path, c = [], f[12]
        while c >= 0:
            path.append(m.collections[c][1:])
            c = m.collections[c][0]
        key = (f[1], f[0])
        if f[4] & 1:
            out.setdefault(key, []).extend([("pad", f[2] + i) for i in range(f[3])])
        else:
            out.setdefault(key, []).append(f[2:12] + (tuple(path),))
    return out, blob


@st.composite
def case(draw):
    t = draw(gens.tree())
    return {"tree": t, "opt": draw(st.booleans())}


def check_alone(c):
    full, blob = fields(c["tree"], c["opt"])
    for key in sorted(full):
        alone, b2 = fields(joined(dropped(keep(c["tree"], 0, None, key))), c["opt"])
        require(set(alone) <= {key}, "report %r alone declares %r", key, sorted(alone))
        a, b = full[key], alone.get(key, [])
        if a != b:
            n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            require(False, "report %r: field #%d is %r among others, %r alone; %s / %s", key, n,
                    a[n] if n < len(a) else None, b[n] if n < len(b) else None, blob.hex(), b2.hex())
    return gens.tree_labels(c["tree"]) | ({"nt"} if len(full) > 1 else set())


@st.composite
def many(draw):
    """Several reports of several ways, heavily interleaved"""
    ids = draw(st.lists(st.integers(1, 255), min_size=2, max_size=4, unique=True))
    m = []
    for _ in range(draw(st.integers(2, 7))):
        vals = []
        for _ in range(draw(st.integers(1, 4))):
            vals += draw(gens.run())[:3]
        if draw(st.integers(0, 3)) == 0:
            vals.append(draw(gens.named_value()))
        if draw(st.integers(0, 3)) == 0:
            vals.append({"t": "report", "id": draw(st.sampled_from(ids)), "m": draw(gens.run())[:2]})
            vals += draw(gens.run())[:2]
        r = {"t": "report", "id": draw(st.sampled_from(ids)), "m": vals}
        if draw(st.booleans()):
            r = {"t": "coll", "kind": 2, "usage": 0x10001, "m": [r]}
        m.append(r)
    return {"tree": {"t": "coll", "kind": 1, "usage": 0x10006, "m": m}, "opt": draw(st.booleans())}


PROPERTY = Property(
    "C22",
    "each (report ID, way) of a generated descriptor is compared with the descriptor holding this report only; "
    "non-trivial with 2 reports or more",
    [
        Facet("alone", check_alone, case(), examples=600, nontrivial=("nt",), thorough=40),
        Facet("row", lambda c: check_alone({"tree": gens.row_tree(c[0]), "opt": c[1]}),
              st.tuples(gens.row(), st.booleans()).map(list), examples=24, nontrivial=("nt",), thorough=20),
        Facet("late", lambda c: check_alone({"tree": gens.late_members(c[0]), "opt": c[1]}),
              st.tuples(gens.late_tree(), st.booleans()).map(list), examples=40, nontrivial=("nt",), thorough=20),
        Facet("many", check_alone, many(), examples=500, nontrivial=("nt",), thorough=40),
    ])
