"""Code listing: each line tells its item, its exact bytes and its nesting"""
from hypothesis import strategies as st

from .. import gens, hr, listing, ref
from ..core import Facet, Property, require


def same_items(blob):
    """Bytes a listing of blob should have: same items, minimal encoding"""
    raw = hr.convert("binary", blob, "binary")
    want, got = ref.items_of(blob), ref.items_of(raw)
    require(got == want, "items of %s are %r, converted %r", blob.hex(), want, got)
    return raw


def check_convert(items):
    blob = ref.encode(items)
    out = hr.convert("binary", blob, "code")
    raw = same_items(blob)
    p = listing.problems(out, raw)
    require(p is None, "%s; descriptor %s, listing:\n%s", p, blob.hex(), out)
    l = gens.stream_labels(items)
    if any(i[0] == "Collection" for i in items) and len(items) > 4:
        l.add("nt")
    return l


def check_optimized(items):
    blob = ref.encode(items)
    out = hr.convert("binary", blob, "code", optimize=True)
    raw = hr.convert("binary", blob, "binary", optimize=True)
    p = listing.problems(out, raw)
    require(p is None, "-O: %s; descriptor %s, listing:\n%s", p, blob.hex(), out)
    return gens.stream_labels(items) | {"nt"}


@st.composite
def compiled(draw):
    return [draw(gens.tree()), draw(st.booleans())]


def check_compiled(case):
    tree, opt = case
    d = hr.build_guarded(tree)
    out = hr.compile_tree(d, opt, "code")
    raw = hr.compile_tree(d, opt, "binary")
    p = listing.problems(out, raw)
    require(p is None, "compile%s: %s; listing:\n%s", "" if opt else " -N", p, out)
    hx = hr.compile_tree(d, opt, "hex")
    want = [x[3].hex() for x in ref.decode(raw)]
    got = [l.replace(" ", "") for l in hx.split("\n")[:-1]]
    require(got == want, "hex listing %r, items are %r", got, want)
    l = gens.tree_labels(tree)
    if not ({"values:0"} & l):
        l.add("nt")
    return l


def known_usages():
    """Every usage of the usage tables once, as a short and as a 32-bit usage"""
    vals = sorted(listing.BY_VALUE)
    for i in range(0, len(vals), 12):
        its = []
        for v in vals[i:i + 12]:
            its += [["UsagePage", v >> 16], ["Usage", v & 0xffff], ["Usage", v]]
        yield its + [["Input", 2]]


def check_usages(items):
    blob = ref.encode(items)
    out = hr.convert("binary", blob, "code")
    p = listing.problems(out, same_items(blob))
    require(p is None, "%s", p)
    for line, (name, value) in zip(out.split("\n"), ref.items_of(blob)):
        if name == "Usage":
            text = line.split("// ")[1].strip()
            require(listing.number(text[7:-1]) is None, "usage 0x%x is known, but shown as %r", value, text)
    return {"nt"}


PAGES = [1, 2, 7, 8, 9, 0xc, 0xd, 0x20, 0xff00, 0x55, 0]
IDS = [1, 2, 4, 5, 6, 9, 0x20, 0x30, 0x31, 0x39, 0xb0, 0xcd, 0, 0x8001]


@st.composite
def pages(draw):
    """Dense mix of what decides in which page a usage lies, and of items that
    look alike (same tag in another kind)"""
    out, depth, pushed = [], 0, 0
    order = draw(st.lists(st.integers(0, 13), min_size=4, max_size=40))
    if draw(st.booleans()):
        order = [0, 12] + order[:len(order) // 2] + [6, 0, 12] + order[len(order) // 2:] + [12, 7, 12]
    for k in order:
        if k < 2:
            out.append(["UsagePage", draw(st.sampled_from(PAGES))])
        elif k < 6 or k > 11:
            n = draw(st.sampled_from(["Usage", "Usage", "UsageMinimum", "UsageMaximum"]))
            out.append([n, draw(st.sampled_from(IDS)) | draw(st.sampled_from([0] * 8 + [0x10000, 0x90000]))])
        elif k == 6:
            out.append(["Push", 0])
            pushed += 1
        elif k == 7 and pushed:
            out.append(["Pop", 0])
            pushed -= 1
        elif k == 8:
            out.append(["Collection", draw(st.integers(0, 6))])
            depth += 1
        elif k == 9 and depth:
            out.append(["EndCollection", 0])
            depth -= 1
        elif k == 10:
            out.append([draw(st.sampled_from(["Feature", "Input", "Output"])), 2])
        else:
            out.append([draw(st.sampled_from(["LogicalMinimum", "ReportID", "ReportSize", "StringIndex",
                                              "DesignatorIndex", "StringMinimum", "StringMaximum"])), 1])
    return out + [["EndCollection", 0]] * depth


def check_pages(items):
    blob = ref.encode(items)
    out = hr.convert("binary", blob, "code")
    p = listing.problems(out, same_items(blob))
    require(p is None, "%s; descriptor %s, listing:\n%s", p, blob.hex(), out)
    names = {i[0] for i in items}
    return {"nt"} if "Usage" in names and names & {"Push", "UsagePage"} else set()


PROPERTY = Property(
    "C04",
    "listing produced by converter (with and without -O) and by compiler; non-trivial: has a collection and "
    "5 items or more / has values; usages: every usage of the published tables (enumerated)",
    [
        Facet("convert", check_convert, gens.stream(), examples=900, nontrivial=("nt",), thorough=30),
        Facet("optimized", check_optimized, st.one_of(gens.stream(), gens.neighbours()), examples=500, nontrivial=("nt",), thorough=30),
        Facet("compiled", check_compiled, compiled(), examples=500, nontrivial=("nt",), thorough=30),
        Facet("pages", check_pages, pages(), examples=1200, nontrivial=("nt",), thorough=30),
        Facet("row", lambda r: check_convert(gens.row_items(r)) | check_optimized(gens.row_items(r)), gens.row(),
              examples=24, nontrivial=("nt",), thorough=20),
        Facet("late", lambda c: check_convert(gens.late_items(c)) | check_optimized(gens.late_items(c)),
              gens.late(st.one_of(gens.stream(segments=4), gens.neighbours())), examples=60, nontrivial=("nt",), thorough=20),
        Facet("usages", check_usages, cases=known_usages, nontrivial=("nt",)),
    ])
