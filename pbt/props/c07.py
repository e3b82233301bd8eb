"""Optimizer output is canonical: nothing redundant, documented merges happen"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require

DEFAULTS = {"Unit": 0, "UnitExponent": 0, "PhysicalMinimum": 0, "PhysicalMaximum": 0}


def redundant(blob):
    """First global item that sets a value already in force, or None"""
    g = dict(DEFAULTS)
    stack = []
    for n, (name, value) in enumerate(ref.items_of(blob)):
        if name == "Push":
            stack.append(dict(g))
        elif name == "Pop":
            g = stack.pop()
        elif ref.TAGS[name][0] == ref.GLOBAL:
            if g.get(name) == value:
                return n, name, value
            g[name] = value
    return None


def check_redundant(items):
    blob = ref.encode(items)
    out = hr.optimize_blob(blob)
    r = redundant(out)
    require(r is None, "item #%d %s (%d) is redundant in optimized %s (from %s)",
            *((r or (0, "", 0)) + (out.hex(), blob.hex())))
    l = gens.stream_labels(items)
    if redundant(blob):
        l.add("redundant-input")
    return l


@st.composite
def with_noise(draw):
    """A stream, and the same with globals already in force repeated"""
    items = draw(st.one_of(gens.stream(segments=8), gens.stacked()))
    g, stack, out = {}, [], []
    for i in items:
        if g and draw(st.integers(0, 2)) == 0:
            for k in draw(st.lists(st.sampled_from(sorted(g)), min_size=1, max_size=3)):
                out.append([k, g[k]])
        out.append(i)
        if i[0] == "Push":
            stack.append(dict(g))
        elif i[0] == "Pop":
            g = stack.pop()
        elif ref.TAGS[i[0]][0] == ref.GLOBAL:
            g[i[0]] = i[1]
    return [items, out]


def useful(blob):
    """Items up to the last main item (what follows has no effect), sorted"""
    items = ref.items_of(blob)
    while items and ref.TAGS[items[-1][0]][0] != ref.MAIN:
        items.pop()
    return sorted(items)


def check_noise(case):
    a, b = case
    x = hr.optimize_blob(ref.encode(a))
    y = hr.optimize_blob(ref.encode(b))
    require(useful(x) == useful(y),
            "repeating globals changes the outcome: %s -> %s, but %s -> %s",
            ref.encode(a).hex(), x.hex(), ref.encode(b).hex(), y.hex())
    return {"nt"} if len(a) != len(b) else set()


# ------------------------------------------------- runs of alike values

@st.composite
def runs(draw):
    """Groups of alike values: what documentation tells gets merged"""
    out = []
    prev = None
    plain = draw(st.integers(0, 2)) == 0
    for _ in range(draw(st.integers(1, 5))):
        p = draw(gens.value_props(array=False))
        p.pop("alignment", None)
        if p.get("physicalMin") is not None or p.get("physicalMax") is not None:
            if draw(st.booleans()):
                p.pop("physicalMin", None), p.pop("physicalMax", None)
        if plain:
            p.pop("physicalMin", None), p.pop("physicalMax", None)
            if draw(st.booleans()) and "logicalMin" in p:
                p["physicalMin"], p["physicalMax"] = p["logicalMin"], p["logicalMax"]
        g = {"way": draw(st.sampled_from(gens.WAYS)), "p": p,
             "page": draw(gens.page()), "base": draw(st.integers(1, 300)),
             "n": draw(st.one_of(st.sampled_from([1, 2, 3, 4, 8]), st.integers(1, 20), st.sampled_from(gens.ROWS)))
             if draw(st.integers(0, 9)) == 0 else draw(st.sampled_from([1, 2, 3, 4, 8])),
             "seq": draw(st.booleans()),
             "jumps": draw(st.lists(st.integers(2, 60), min_size=8, max_size=8)),
             "string": draw(st.sampled_from([0, 0, 1, 5])), "designator": draw(st.sampled_from([0, 0, 1, 5]))}
        key = (g["way"], sorted(p.items()), g["page"], bool(g["string"]), bool(g["designator"]))
        if prev == key:
            continue
        prev = key
        out.append(g)
    return out


def tree_of(groups):
    m = []
    for g in groups:
        u = g["base"]
        for i in range(g["n"]):
            e = {"t": "val", "way": g["way"], "usage": g["page"] << 16 | u, "alignment": 0}
            e.update(g["p"])
            if g["string"]:
                e["string"] = g["string"] + i
            if g["designator"]:
                e["designator"] = g["designator"] + i
            m.append(e)
            u += 1 if g["seq"] else g["jumps"][i % 8]
    return {"t": "coll", "kind": 1, "usage": 0x10006, "m": m}


def props(g):
    p = g["p"]
    lm = (p.get("logicalMin", 1), p["logicalMax"])
    ph = (p.get("physicalMin") or 0, p.get("physicalMax") or 0)
    return (g["way"], p.get("flags", 2), lm, lm if ph == (0, 0) else ph, p.get("unit", 0),
            p.get("unitExponent", 0), p["size"], g["page"], bool(g["string"]), bool(g["designator"]))


def check_runs(groups):
    # neighbours that ended up alike are one group
    for a, b in zip(groups, groups[1:]):
        if props(a) == props(b):
            return {"alike"}
    out = hr.compile_tree(hr.build_guarded(tree_of(groups)), True)
    segs, cur = [], []
    for name, value in ref.items_of(out):
        cur.append((name, value))
        if name in ref.DATA:
            segs.append(cur)
            cur = []
    require(len(segs) == len(groups), "%d groups of alike values make %d data items: %s",
            len(groups), len(segs), out.hex())
    for g, s in zip(groups, segs):
        loc = [x for x in s if ref.TAGS[x[0]][0] == ref.LOCAL]
        if s is segs[0]:        # the collection and its usage come first
            k = next(i for i, x in enumerate(s) if x[0] == "Collection")
            loc = [x for x in s[k:] if ref.TAGS[x[0]][0] == ref.LOCAL]
        u, ids = g["base"], []
        for i in range(g["n"]):
            ids.append(u)
            u += 1 if g["seq"] else g["jumps"][i % 8]
        for what, vals in (("Usage", ids),
                           ("String", [g["string"] + i for i in range(g["n"])] if g["string"] else []),
                           ("Designator", [g["designator"] + i for i in range(g["n"])] if g["designator"] else [])):
            got = [x for x in loc if x[0].startswith(what)]
            consecutive = vals == list(range(vals[0], vals[0] + len(vals))) if vals else False
            one = what if what == "Usage" else what + "Index"
            want = [(what + "Minimum", vals[0]), (what + "Maximum", vals[-1])] \
                if consecutive and len(vals) > 2 else [(one, v) for v in vals]
            require(got == want, "%s items of a group should be %r, are %r in %s", what, want, got, out.hex())
    r = redundant(out)
    require(r is None, "redundant item %r in compiled %s", r, out.hex())
    if all(props(g)[2] == props(g)[3] for g in groups):
        require(not any(n.startswith("Physical") for n, v in ref.items_of(out)),
                "no physical range differs from the logical one, but %s has physical items", out.hex())
    return {"groups:%d" % len(groups)} | ({"nt"} if any(g["n"] > 1 for g in groups) else set())


# ------------------------------------- physical range same as logical range

@st.composite
def same_physical(draw):
    """Data items whose physical range always is the logical one, told or not"""
    out = [["UsagePage", draw(gens.page())], ["ReportSize", draw(gens.sizes)], ["ReportCount", draw(st.integers(1, 3))]]
    if draw(st.booleans()):
        out += [["Usage", 1], ["Collection", 1]]
    n = out[-1][0] == "Collection"
    told = False
    for _ in range(draw(st.integers(1, 5))):
        if not told or draw(st.booleans()):
            lo, hi = draw(gens.logical())
            log = [["LogicalMinimum", lo], ["LogicalMaximum", hi]]
            if draw(st.booleans()):
                phy = [["PhysicalMinimum", lo], ["PhysicalMaximum", hi]]
            else:
                phy = [["PhysicalMinimum", 0], ["PhysicalMaximum", 0]]
            seg = log + phy
            seg = draw(st.permutations(seg))
            out += seg
            told = True
        if draw(st.integers(0, 3)) == 0:
            out.append(["DesignatorIndex", 0])
        out += [["Usage", draw(st.integers(1, 60))], [draw(st.sampled_from(["Input", "Output", "Feature"])), 2]]
    return out + [["EndCollection", 0]] * n


def check_same_physical(items):
    blob = ref.encode(items)
    out = hr.optimize_blob(blob)
    require(not any(n.startswith("Physical") for n, v in ref.items_of(out)),
            "no physical range differs from the logical one in %s, but optimized %s has physical items",
            blob.hex(), out.hex())
    require(not any(n.startswith("Designator") for n, v in ref.items_of(out)),
            "no data item has a designator in %s, but optimized %s has some", blob.hex(), out.hex())
    return {"nt"} if any(n.startswith("Physical") and v for n, v in items) else set()


# -------------------------------------------------- compiler output is final

def check_again(tree):
    d = hr.build_guarded(tree)
    once = hr.compile_tree(d, True)
    twice = hr.optimize_blob(once)
    require(useful(once) == useful(twice), "optimizing compiled descriptor again changes it: %s -> %s", once.hex(), twice.hex())
    r = redundant(once)
    require(r is None, "redundant item %r in compiled %s", r, once.hex())
    return gens.tree_labels(tree) | ({"nt"} if len(once) > 20 else set())


PROPERTY = Property(
    "C07",
    "redundant: input stream has redundant globals; noise: globals got repeated; runs: some group of alike values "
    "has 2 members or more; again: compiled descriptor exceeds 20 bytes",
    [
        Facet("redundant", check_redundant, st.one_of(gens.stream(), gens.neighbours(), gens.stacked()), examples=900, nontrivial=("redundant-input",), thorough=30),
        Facet("late", lambda c: check_redundant(gens.late_items(c)),
              gens.late(st.one_of(gens.stream(segments=4), gens.neighbours(), gens.stacked())), examples=80,
              nontrivial=("redundant-input",), thorough=20),
        Facet("late_physical", lambda c: check_same_physical(gens.late_items(c)), gens.late(same_physical()), examples=80,
              nontrivial=("nt",), thorough=20),
        Facet("noise", check_noise, with_noise(), examples=500, nontrivial=("nt",), thorough=30),
        Facet("runs", check_runs, runs(), examples=700, nontrivial=("nt",), thorough=30),
        Facet("same_physical", check_same_physical, same_physical(), examples=300, nontrivial=("nt",), thorough=30),
        Facet("again", check_again, gens.tree(), examples=500, nontrivial=("nt",), thorough=30),
    ])
