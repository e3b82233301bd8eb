"""Generators.  Every case is plain JSON data.

Descriptor trees:
  {"t": "top", "m": [...]} {"t": "report", "id": n, "m": [...]}
  {"t": "coll", "kind": n, "usage": n|None, "m": [...]}
  {"t": "val", "way":, "usage":, "size":, [flags, logicalMin, ...], ["named": {"list"|"range"}]}
  {"t": "pad", "way":, "size":} {"t": "align", "way":, "boundary":}
Item streams: list of [name, value] or [name, value, width].
"""
import functools

from hypothesis import strategies as st

from . import ref

WAYS = ("Input", "Output", "Feature")

PAGES = [0x01, 0x02, 0x07, 0x08, 0x09, 0x0a, 0x0c, 0x0d, 0x20, 0x59, 0x7f,
         0x80, 0x84, 0xff, 0x100, 0x7fff, 0x8000, 0xff00, 0xff01, 0xffff]
COMMON_PAGES = [0x01, 0x09, 0x07, 0x0c, 0xff00]
IDS = [0x00, 0x01, 0x02, 0x03, 0x06, 0x20, 0x30, 0x31, 0x38, 0x7e, 0x7f, 0x80,
       0x81, 0xc4, 0xe0, 0xfd, 0xfe, 0xff, 0x100, 0x101, 0x223, 0x7fff, 0x8000, 0xfff0]
# Usages having the "Named Array" type in the HID usage tables
NARY = [0xc0002, 0xc0003, 0xc0036, 0xc0080, 0xc0087, 0xc00ba, 0xc00f1, 0xf0025,
        0xf0059, 0xf0078, 0xf0096, 0x200201, 0x200316, 0x200319, 0xb0006,
        0x50032, 0x8004e]
NOT_NARY = [0x10001, 0x10002, 0x10006, 0x10080, 0xc0001, 0x10039, 0x90001,
            0xff000001, 0xd0004, 0x200001]

BOUND = [0, 1, -1, 2, -2, 7, 8, 63, 64, 100, 126, 127, 128, 129, 254, 255, 256,
         257, 1000, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537,
         0x7ffffe, 0x7fffff, 0x800000, 0xffffff, 0x1000000,
         2**31 - 2, 2**31 - 1]
S32 = sorted(set(BOUND + [-v for v in BOUND] + [-v - 1 for v in BOUND] + [-2**31]))
U32 = sorted(set(v for v in BOUND if v >= 0) | {2**31, 2**31 + 1, 2**32 - 2, 2**32 - 1})

s32 = st.one_of(st.sampled_from(S32), st.integers(-2**31, 2**31 - 1),
                st.integers(-300, 300), st.integers(-70000, 70000))
u32 = st.one_of(st.sampled_from(U32), st.integers(0, 2**32 - 1),
                st.integers(0, 300), st.integers(0, 70000))


@functools.lru_cache(None)
def weighted(*pairs):
    """[(weight, value)]: sampled_from with multiplicity"""
    out = []
    for w, v in pairs:
        out += [v] * w
    return st.sampled_from(out)


@st.composite
def page(draw):
    return draw(weighted((5, 1), (4, 9), (2, 7), (3, 0xc), (3, 0xff00), (4, None))) \
        or draw(st.sampled_from(PAGES))


@st.composite
def usage_id(draw):
    return draw(st.one_of(st.sampled_from(IDS), st.integers(1, 40), st.integers(1, 0xfff0)))


@st.composite
def usage(draw):
    return draw(page()) << 16 | draw(usage_id())


sizes = st.one_of(st.sampled_from([1, 1, 2, 3, 4, 7, 8, 8, 8, 9, 12, 15, 16, 16, 17, 24, 31, 32, 64]),
                  st.integers(1, 40), st.integers(33, 300), st.sampled_from([127, 128, 255, 256, 257, 511, 4096]))
# Report counts other than one
counts = st.one_of(st.sampled_from([2, 3, 6, 8, 0, 64, 127, 128, 255, 256]), st.integers(2, 10), st.integers(4, 300))
units = st.one_of(st.just(0), st.just(0),
                  st.sampled_from([0x11, 0x12, 0x13, 0x14, 0x101, 0x103, 0x1001, 0x10001,
                                   0x10003, 0x100000, 0x1000000, 0xf011, 0xf111, 0xe011,
                                   0xe111, 0xe121, 0x00f0d121, 0x40, 1, 0xff, 0x100]),
                  st.integers(0, 2**32 - 1))
exponents = st.one_of(st.just(0), st.just(0), st.integers(-8, 7), st.integers(0, 15))
# Data flags without Constant (bit 0) and Variable (bit 1)
other_flags = st.one_of(st.just(0), st.just(0), st.sampled_from([4, 8, 16, 32, 64, 128, 256]),
                        st.integers(0, 127).map(lambda x: x << 2))
index = st.one_of(st.integers(1, 6), st.integers(1, 300), st.sampled_from([1, 127, 128, 255, 256, 1000, 0xffff, 0x10000]))


@st.composite
def logical(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return (0, 1)
    if k == 1:
        return draw(st.sampled_from([(0, 255), (-127, 127), (1, 8), (0, 0), (-1, 1), (0, 65535),
                                     (-128, 127), (0, 127), (0, 128), (-32768, 32767), (0, 1023),
                                     (0, -1), (0, 15)]))
    a, b = draw(s32), draw(s32)
    return (min(a, b), max(a, b)) if k < 5 else (a, b)


@st.composite
def physical(draw, log):
    k = draw(st.integers(0, 9))
    if k < 5:
        return (None, None)
    if k == 5:
        return (0, 0)
    if k == 6:
        return log
    if k == 7:
        return draw(st.sampled_from([(0, 315), (0, 360), (-1, 1), (0, 255), (1, 0), (0, 1)]))
    return (draw(s32), draw(s32))


# ------------------------------------------------------------ descriptors

@st.composite
def value_props(draw, array=None):
    """Everything of a Value but way, usage, string, designator"""
    p = {"size": draw(sizes)}
    if array is None:
        array = draw(st.integers(0, 7)) == 0
    f = draw(other_flags) | (0 if array else 2)
    if f != 2 or draw(st.integers(0, 5)) == 0:
        p["flags"] = f
    log = draw(logical())
    if log[0] != 1 or draw(st.booleans()):
        p["logicalMin"] = log[0]
    p["logicalMax"] = log[1]
    phys = draw(physical(log))
    if phys[0] is not None:
        p["physicalMin"] = phys[0]
    if phys[1] is not None:
        p["physicalMax"] = phys[1]
    u = draw(units)
    if u:
        p["unit"] = u
    e = draw(exponents)
    if e:
        p["unitExponent"] = e
    a = draw(weighted((8, None), (1, 0), (1, 1), (1, 2), (1, 8), (1, 16), (1, 32), (3, -1)))
    if a == -1:
        a = draw(st.one_of(st.integers(3, 17), st.integers(18, 130)))
    if a is not None:
        p["alignment"] = a
    return p


@st.composite
def named(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        p, a = draw(page()), draw(usage_id())
        n = draw(st.one_of(st.integers(1, 6), st.integers(1, 40), st.sampled_from([127, 128, 129, 255, 256])))
        b = min(a + n - 1, 0xfffe)
        a = min(a, b)
        return {"range": [p << 16 | a, p << 16 | b]}
    n = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(1, 20), st.sampled_from([32, 33, 64])))
    if k == 1:
        p, a = draw(page()), draw(st.integers(1, 300))
        return {"list": [p << 16 | (a + i) for i in range(n)]}
    if k == 2:
        p = draw(page())
        return {"list": [p << 16 | draw(usage_id()) for _ in range(n)]}
    return {"list": [draw(usage()) for _ in range(n)]}


@st.composite
def named_value(draw, way=None):
    e = {"t": "val", "way": way or draw(st.sampled_from(WAYS)),
         "usage": draw(st.one_of(st.none(), st.none(), st.sampled_from(NARY),
                                 st.sampled_from(NOT_NARY), usage())),
         "size": draw(sizes), "named": draw(named())}
    lm = draw(weighted((4, None), (4, 0), (1, 1), (1, 2), (1, -1), (1, 100), (1, 127), (3, -2)))
    if lm == -2:
        lm = draw(st.one_of(st.integers(-300, 300), st.sampled_from(S32).map(lambda v: min(v, 2**31 - 300))))
    if lm is not None:
        e["logicalMin"] = lm
    f = draw(other_flags)
    if f:
        e["flags"] = f
    c = draw(weighted((6, None), (1, 1), (2, 2), (1, 6), (1, 0), (1, -1)))
    if c == -1:
        c = draw(counts)
    if c is not None:
        e["count"] = c
    for k in ("string", "designator"):
        if draw(st.integers(0, 4)) == 0:
            e[k] = draw(index)
    return e


VALUE_TWEAKS = {"unit": units, "unitExponent": exponents, "size": sizes, "logicalMax": s32, "logicalMin": s32,
                "physicalMax": s32, "physicalMin": s32, "string": index, "designator": index,
                "way": st.sampled_from(WAYS), "flags": other_flags.map(lambda f: f | 2)}


@st.composite
def run(draw, way=None):
    """Values sharing the same properties, the stuff optimizer merges"""
    way = way or draw(weighted((5, "Input"), (2, "Output"), (2, "Feature")))
    p = draw(value_props())
    n = draw(weighted((15, 1), (9, 2), (6, 3), (3, 4), (3, 5), (3, 8), (3, 9), (1, 17), (1, 40)))
    mode = draw(st.sampled_from(["seq", "seq", "seq", "same", "page", "any", "some"]))
    pg, base = draw(page()), draw(st.integers(1, 300))
    strings = draw(weighted((6, None), (1, "all"), (1, "some"), (1, "seq"), (1, "same")))
    desigs = draw(weighted((6, None), (1, "all"), (1, "some"), (1, "seq"), (1, "same")))
    sbase, dbase = draw(index), draw(index)
    vary = draw(weighted((4, None), (1, "count"), (1, "way"), (3, "tweak")))
    out = []
    for i in range(n):
        e = {"t": "val", "way": way}
        if mode == "seq":
            e["usage"] = pg << 16 | (base + i)
        elif mode == "same":
            e["usage"] = pg << 16 | base
        elif mode == "page":
            e["usage"] = pg << 16 | draw(usage_id())
        elif mode == "any":
            e["usage"] = draw(usage())
        else:
            e["usage"] = draw(st.one_of(st.none(), usage()))
        e.update(p)
        for k, how, b in (("string", strings, sbase), ("designator", desigs, dbase)):
            if how == "all":
                e[k] = draw(index)
            elif how == "some" and draw(st.booleans()):
                e[k] = draw(index)
            elif how == "seq":
                e[k] = b + i
            elif how == "same":
                e[k] = b
        if vary == "count":
            c = draw(weighted((5, 1), (2, 2), (1, 3), (1, 0), (2, -1)))
            if c == -1:
                c = draw(counts)
            if c != 1:
                e["count"] = c
        elif vary == "way" and draw(st.integers(0, 2)) == 0:
            e["way"] = draw(st.sampled_from(WAYS))
        elif vary == "tweak" and draw(st.integers(0, 1)) == 0:
            # differs from its neighbours by one thing
            k = draw(st.sampled_from(sorted(VALUE_TWEAKS)))
            e[k] = draw(VALUE_TWEAKS[k])
        out.append(e)
    return out


@st.composite
def const_value(draw):
    e = {"t": "val", "way": draw(st.sampled_from(WAYS)), "usage": None,
         "size": draw(sizes), "flags": draw(st.sampled_from([1, 3, 5, 7]))}
    if draw(st.booleans()):
        e["count"] = draw(st.one_of(st.integers(1, 9), counts))
    if draw(st.booleans()):
        e["alignment"] = draw(st.sampled_from([1, 8, 4]))
    return e


@st.composite
def padding(draw):
    return {"t": "pad", "way": draw(weighted((4, "Input"), (1, "Output"), (1, "Feature"))),
            "size": draw(st.one_of(st.integers(1, 16), st.sampled_from([7, 31, 64, 256])))}


@st.composite
def align(draw):
    return {"t": "align", "way": draw(weighted((4, "Input"), (1, "Output"), (1, "Feature"))),
            "boundary": draw(st.one_of(st.sampled_from([8, 8, 16, 32, 2, 4, 1, 3, 24, 64]), st.integers(1, 520)))}


coll_kinds = st.one_of(st.integers(0, 6), st.integers(0, 3), st.sampled_from([7, 0x7f, 0x80, 0x81, 0xff]),
                       st.integers(0, 255))
report_ids = st.one_of(st.integers(1, 3), st.integers(1, 3), st.sampled_from([1, 2, 127, 128, 254, 255]),
                       st.integers(1, 255))


@st.composite
def members(draw, depth, rid, ids, n_max=4):
    out = []
    for _ in range(draw(st.integers(0 if depth < 2 else 1, n_max))):
        can_value = rid is not None or not ids
        kinds = []
        if can_value:
            kinds += ["run"] * 5 + ["named", "pad", "align", "const"]
        if depth < 4:
            kinds += ["coll"] * (2 if can_value else 3)
        if ids and depth < 5:
            kinds += ["report"] * (1 if can_value else 4)
        k = draw(st.sampled_from(kinds))
        if k == "run":
            out += draw(run())
        elif k == "named":
            out.append(draw(named_value()))
        elif k == "pad":
            out.append(draw(padding()))
        elif k == "align":
            out.append(draw(align()))
        elif k == "const":
            out.append(draw(const_value()))
        elif k == "coll":
            out.append(draw(collection(depth + 1, rid, ids)))
        else:
            i = draw(report_ids)
            out.append({"t": "report", "id": i, "m": draw(members(depth + 1, i, ids, 3))})
    return out


@st.composite
def collection(draw, depth, rid, ids, n_max=4):
    u = draw(st.one_of(usage(), usage(), st.sampled_from(NARY), st.none()))
    return {"t": "coll", "kind": draw(coll_kinds), "usage": u,
            "m": draw(members(depth, rid, ids, n_max))}


@st.composite
def tree(draw, n_max=4):
    ids = draw(st.booleans())
    shape = draw(st.integers(0, 5))
    if shape <= 2:
        c = draw(collection(1, None, ids, n_max))
        for _ in range(draw(weighted((8, 0), (1, 3), (1, 7)))):
            c = {"t": "coll", "kind": draw(coll_kinds), "usage": draw(usage()), "m": [c]}
        return c
    if shape == 3 and ids:
        i = draw(report_ids)
        return {"t": "report", "id": i, "m": [draw(collection(1, i, ids, n_max))
                                              for _ in range(draw(st.integers(1, 2)))]}
    if shape == 4 and not ids:
        return {"t": "report", "id": 0, "m": [draw(collection(1, None, ids, n_max))]}
    out = []
    for _ in range(draw(st.integers(1, 3))):
        c = draw(collection(1, None, ids, n_max))
        if ids and draw(st.integers(0, 2)) == 0:
            i = draw(report_ids)
            c = {"t": "report", "id": i, "m": [draw(collection(1, i, ids, n_max))]}
        out.append(c)
    return {"t": "top", "m": out}


@st.composite
def hollow(draw):
    """Descriptions which have next to nothing to declare"""
    way = draw(st.sampled_from(["Input", "Output", "Feature"]))
    leaf = draw(st.sampled_from([None, {"t": "align", "way": way, "boundary": 8}, {"t": "pad", "way": way, "size": 0}]))
    e = {"t": "top", "m": [leaf] if leaf else []}
    for _ in range(draw(st.integers(0, 2))):
        e = draw(st.sampled_from([{"t": "top", "m": [e]}, {"t": "report", "id": 0, "m": [e]}]))
    return e


def walk(e):
    yield e
    for c in e.get("m", ()):
        yield from walk(c)


def tree_labels(t):
    l = set()
    vals = [e for e in walk(t) if e["t"] == "val"]
    for e in walk(t):
        l.add(e["t"])
    if any(e.get("named") for e in vals):
        l.add("named")
    if any(e.get("count", 1) > 1 for e in vals):
        l.add("count>1")
    if any(e.get("physicalMin") or e.get("physicalMax") for e in vals):
        l.add("physical")
    if any(e.get("string") or e.get("designator") for e in vals):
        l.add("string/designator")
    if len({e["way"] for e in vals}) > 1:
        l.add("several-ways")
    if len({e["id"] for e in walk(t) if e["t"] == "report"}) > 1:
        l.add("several-reports")
    if any(e["t"] == "report" and any(c["t"] == "report" for c in e["m"]) for e in walk(t)):
        l.add("nested-report")
    n = len(vals)
    l.add("values:0" if not n else "values:1-3" if n < 4 else "values:4-15" if n < 16 else "values:16+")
    return l


ROWS = [16, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 513]


@st.composite
def row(draw):
    """Many alike values in a row, with something happening at one of them"""
    n = draw(st.one_of(st.sampled_from(ROWS), st.integers(20, 300)))
    r = {"n": n, "way": draw(st.sampled_from(WAYS)), "page": draw(page()), "base": draw(st.sampled_from([0, 1, 1, 4, 200])),
         "step": draw(weighted((3, 1), (1, 0), (1, 3))), "size": draw(st.sampled_from([1, 1, 8, 3, 16])),
         "max": draw(st.sampled_from([1, 255])), "id": draw(st.sampled_from([0, 0, 1, 255])),
         "string": draw(weighted((3, None), (1, 0), (1, 1))), "designator": draw(weighted((3, None), (1, 0), (1, 1))),
         "at": draw(st.one_of(st.none(), st.integers(1, n - 1), st.integers(1, n - 1))),
         "what": draw(st.sampled_from(["max", "size", "page", "skip", "coll", "const", "way", "string"]))}
    r["shape"] = draw(weighted((6, "row"), (1, "reports"), (1, "colls"), (2, "deep"), (1, "named")))
    return r


def bulk(r):
    """Many reports, collections, nesting levels, or members of a named array"""
    def val(i):
        return {"t": "val", "way": WAYS[i % 3] if r["step"] == 3 else r["way"],
                "usage": r["page"] << 16 | r["base"] + i * r["step"], "size": r["size"], "logicalMin": 0,
                "logicalMax": r["max"] + (i == r["at"]), "alignment": 0}

    def coll(i, m):
        return {"t": "coll", "kind": i % 7 if r["step"] == 3 else 2, "usage": r["page"] << 16 | r["base"] + i, "m": m}

    n = r["n"]
    if r["shape"] == "reports":
        n = min(n, 255)
        ids = [(i * 7 + r["base"]) % 255 + 1 for i in range(n)]
        m = [{"t": "report", "id": i, "m": [val(k)]} for k, i in enumerate(ids)]
        m += [{"t": "report", "id": i, "m": [val(k)]} for k, i in enumerate(ids[:3] + ids[-3:])]
        return {"t": "coll", "kind": 1, "usage": 0x10006, "m": m}
    if r["shape"] == "colls":
        m = [coll(i, [val(i)] * (i % 2)) for i in range(n)]
    elif r["shape"] == "named":
        u = [r["page"] << 16 | r["base"] + i * (r["step"] or 2) for i in range(n)]
        m = [val(0), {"t": "val", "way": r["way"], "usage": None, "size": 16, "logicalMin": r["max"], "alignment": 0,
                      "named": {"list": u}}, val(1)]
    else:
        m = [val(0)]
        for i in range(min(n, 60)):
            m = [val(2 * i)] * (i % 4 == 1) + [coll(i, m)] + [val(2 * i + 1)] * (i % 3 == 0)
    c = {"t": "coll", "kind": 1, "usage": 0x10006, "m": m}
    return {"t": "report", "id": r["id"], "m": [c]} if r["id"] else c


def tree_items(e, push=False):
    """Items of a description free of alignment, in the plainest way"""
    m = e.get("m", ())
    inner = [i for x in m for i in tree_items(x, push)]
    if e["t"] == "report":
        return [["ReportID", e["id"]]] + inner
    if e["t"] == "coll":
        out = [["UsagePage", e["usage"] >> 16], ["Usage", e["usage"] & 0xffff], ["Collection", e["kind"]]]
        if push:
            return [["Push", 0]] + out + inner + [["EndCollection", 0], ["Pop", 0]]
        return out + inner + [["EndCollection", 0]]
    us = [e["usage"]] if not e.get("named") else e["named"]["list"]
    hi = e["logicalMax"] if not e.get("named") else e["logicalMin"] + len(us) - 1
    return [["UsagePage", us[0] >> 16]] + [["Usage", u & 0xffff] for u in us] + \
        [["LogicalMinimum", e["logicalMin"]], ["LogicalMaximum", hi], ["ReportSize", e["size"]], ["ReportCount", 1],
         [e["way"], 0 if e.get("named") else 2]]


def row_tree(r):
    if r["shape"] != "row":
        return bulk(r)
    m, u = [], r["base"]
    for i in range(r["n"]):
        e = {"t": "val", "way": r["way"], "usage": r["page"] << 16 | u, "size": r["size"], "logicalMin": 0,
             "logicalMax": r["max"], "alignment": 0}
        for k in ("string", "designator"):
            if r[k] is not None:
                e[k] = 1 + i * r[k]
        if i == r["at"]:
            w = r["what"]
            if w == "max":
                e["logicalMax"] += 1
            elif w == "size":
                e["size"] += 1
            elif w == "page":
                e["usage"] ^= 0x30000
            elif w == "skip":
                u += 1
            elif w == "way":
                e["way"] = WAYS[(WAYS.index(e["way"]) + 1) % 3]
            elif w == "string":
                e["string"] = 7
            elif w == "const":
                m.append({"t": "pad", "way": r["way"], "size": 5})
            elif w == "coll":
                e = {"t": "coll", "kind": 2, "usage": 0x10001, "m": [e]}
        u += r["step"]
        m.append(e)
    c = {"t": "coll", "kind": 1, "usage": 0x10006, "m": m}
    return {"t": "report", "id": r["id"], "m": [c]} if r["id"] else c


# ------------------------------------------------------------ item streams

TWEAKS_TO = {"LogicalMinimum": s32, "LogicalMaximum": s32, "PhysicalMinimum": s32, "PhysicalMaximum": s32,
             "Unit": units, "UnitExponent": exponents, "ReportSize": sizes, "ReportID": report_ids,
             "UsagePage": page()}
TWEAKS = sorted(TWEAKS_TO) + ["ReportCount"]


def pal(draw, strategy, n):
    return [draw(strategy) for _ in range(n)]


@st.composite
def widths(draw, name, value):
    """Some legal encoding width, mostly the minimal one"""
    w = ref.min_width(name, value)
    if draw(st.integers(0, 9)) < 8:
        return w
    return draw(st.sampled_from([x for x in (1, 2, 4) if x >= w]))


@st.composite
def stream(draw, ext=True, push=True, delim=True, top_level=True, widen=True,
           segments=12, strings=True, nonconst_arrays=True, const=True, max_usages=6):
    """Well-formed item stream.

    Usage page never changes between a short usage and its main item, ranges
    are ordered and within a page, Push / Pop and collections are balanced.
    """
    items = []
    pages = pal(draw, page(), 2)
    logs = pal(draw, logical(), 2)
    physs = [(0, 0), logs[0]] + pal(draw, st.tuples(s32, s32), 1)
    unitp = [0] + pal(draw, units, 1)
    exps = [0] + pal(draw, exponents, 1)
    szs = pal(draw, sizes, 2)
    cnts = [1, 1, 1, draw(counts)]
    rids = [draw(report_ids), draw(report_ids)]
    use_ids = draw(st.integers(0, 2)) == 0
    flagp = [2, 2, draw(other_flags) | 2]
    if nonconst_arrays:
        flagp += [0, draw(other_flags)]
    if const:
        flagp += [draw(st.sampled_from([1, 3, 3, 7]))]
    bases = [1, draw(usage_id())]

    state = {"UsagePage": None}
    stack = []
    depth = 0

    def put(name, value=0, width="auto"):
        if name in ref.NOVALUE:
            items.append([name, 0])
            return
        if width == "auto":
            width = draw(widths(name, value)) if widen and name not in ref.USAGES \
                else ref.min_width(name, value)
        items.append([name, value] if width == ref.min_width(name, value) else [name, value, width])
        if ref.TAGS[name][0] == ref.GLOBAL:
            state[name] = value

    def globals_(first=False):
        todo = []
        if first:
            todo = ["log", "size", "count", "page"]
        for _ in range(draw(weighted((3, 0), (3, 1), (2, 2), (1, 4)))):
            todo.append(draw(st.sampled_from(["log", "phys", "unit", "exp", "size", "count", "page",
                                              "page", "count", "lmax", "pmax", "id", "again"])))
        for k in todo:
            if k == "log":
                l = draw(st.sampled_from(logs))
                put("LogicalMinimum", l[0]), put("LogicalMaximum", l[1])
            elif k == "lmax":
                put("LogicalMaximum", draw(st.sampled_from(logs))[1])
            elif k == "phys":
                l = draw(st.sampled_from(physs))
                put("PhysicalMinimum", l[0]), put("PhysicalMaximum", l[1])
            elif k == "pmax":
                put("PhysicalMaximum", draw(st.sampled_from(physs))[1])
            elif k == "unit":
                put("Unit", draw(st.sampled_from(unitp)))
            elif k == "exp":
                put("UnitExponent", draw(st.sampled_from(exps)))
            elif k == "size":
                put("ReportSize", draw(st.sampled_from(szs)))
            elif k == "count":
                put("ReportCount", draw(st.sampled_from(cnts)))
            elif k == "page":
                put("UsagePage", draw(st.sampled_from(pages)))
            elif k == "id" and use_ids:
                put("ReportID", draw(st.sampled_from(rids)))
            elif k == "again":
                g = [x for x in sorted(state) if state[x] is not None]
                if g:
                    x = draw(st.sampled_from(g))
                    put(x, state[x])

    def one_tweak():
        """Changes one thing only since previous main item"""
        name = draw(st.sampled_from(TWEAKS))
        if name == "ReportID" and not use_ids:
            return
        if name == "ReportCount":
            value = draw(st.sampled_from(cnts))
        elif name == "UsagePage":
            value = draw(st.sampled_from(pages))
        else:
            value = draw(TWEAKS_TO[name])
        put(name, value)

    last = {"u": draw(st.integers(1, 300))}

    def one_usage(isext, pg, uid, tag="Usage"):
        if isext:
            items.append([tag, pg << 16 | uid])
        else:
            put(tag, uid, ref.min_width(tag, uid))

    def usages(how):
        isext = ext and draw(st.integers(0, 3)) == 0
        pg = draw(st.sampled_from(pages)) if isext else state["UsagePage"]
        if how == "seq":
            base = draw(st.sampled_from(bases))
            if draw(st.booleans()):
                base = last["u"] + 1
            base = min(base, 0xff00)
            n = draw(weighted((4, 1), (2, 2), (2, 3), (1, max_usages)))
            for i in range(n):
                one_usage(isext, pg, base + i)
            last["u"] = base + n - 1
        elif how == "any":
            for _ in range(draw(st.integers(1, max_usages))):
                x = ext and draw(st.integers(0, 3)) == 0
                one_usage(x, draw(st.sampled_from(pages)) if x else state["UsagePage"], draw(usage_id()))
        elif how == "range":
            a = draw(usage_id())
            b = min(a + draw(st.one_of(st.sampled_from([0, 1, 2, 3, 5, 10, 31]), st.integers(0, 300))), 0xfffe)
            ends = [(a, "UsageMinimum"), (b, "UsageMaximum")]
            if draw(st.integers(0, 7)) == 0:
                ends.reverse()
            for v, tag in ends:
                one_usage(isext, pg, v, tag)
        elif how == "delim":
            put("Delimiter", 1)
            for _ in range(draw(st.integers(1, 3))):
                one_usage(False, pg, draw(st.integers(1, 5)))
            put("Delimiter", 0)

    def indices(base):
        how = draw(weighted((3, "one"), (1, "seq"), (1, "any"), (1, "range"), (1, "zero")))
        if how == "one":
            put(base + "Index", draw(index))
        elif how == "seq":
            a = draw(st.integers(1, 5))
            for i in range(draw(st.integers(1, 4))):
                put(base + "Index", a + i)
        elif how == "any":
            for _ in range(draw(st.integers(1, 4))):
                put(base + "Index", draw(st.one_of(st.just(0), index)))
        elif how == "range":
            a = draw(st.integers(0, 5))
            ends = [(base + "Minimum", a), (base + "Maximum", a + draw(st.integers(0, 4)))]
            if draw(st.integers(0, 7)) == 0:
                ends.reverse()
            for x in ends:
                put(*x)
        else:
            put(base + "Index", 0)

    globals_(first=True)
    if draw(st.integers(0, 9)) < 8 or not top_level:
        one_usage(False, state["UsagePage"], draw(usage_id()))
        put("Collection", draw(st.sampled_from([1, 1, 0])))
        depth = 1

    pp = draw(weighted((2, 1), (1, 4)))
    for _ in range(draw(st.integers(1, segments))):
        globals_()
        k = draw(weighted((14, "data"), (2, "coll"), (2, "end"), (pp, "push"), (pp, "pop")))
        if k == "push" and push:
            put("Push")
            stack.append(dict(state))
        elif k == "pop" and stack:
            put("Pop")
            state = dict(stack.pop())
        elif k == "end" and depth > (0 if top_level else 1):
            put("EndCollection")
            depth -= 1
        elif k in ("coll", "data"):
            rep = draw(weighted((5, 1), (2, 2), (1, 3), (1, 5))) if k == "data" \
                else draw(weighted((8, 1), (2, 2), (1, 7)))
            how = draw(weighted((5, "seq"), (2, "any"), (2, "range"), (1, None), (1, "mix"), (1, "delim")))
            if how == "delim" and not (delim and k == "data"):
                how = "seq"
            hs = strings and draw(st.integers(0, 6)) == 0
            hd = strings and draw(st.integers(0, 6)) == 0
            way, fl = draw(weighted((4, "Input"), (1, "Output"), (1, "Feature"))), draw(st.sampled_from(flagp))
            mid = draw(st.integers(0, 4)) == 0
            tweak = k == "data" and draw(st.integers(0, 1)) == 0
            for r in range(rep):
                if tweak and r:
                    one_tweak()
                parts = []
                if how == "mix":
                    parts += [("u", "seq"), ("u", "range")] if draw(st.booleans()) else [("u", "range"), ("u", "range")]
                elif how:
                    parts += [("u", how)]
                if hs:
                    parts += [("i", "String")]
                if hd:
                    parts += [("i", "Designator")]
                if k == "coll":
                    parts = parts[:1] if parts and parts[0][0] == "u" else []
                    if parts:
                        one_usage(ext and draw(st.integers(0, 3)) == 0, state["UsagePage"], draw(usage_id()))
                    parts = []
                for a, b in parts:
                    if a == "u":
                        usages(b)
                    else:
                        indices(b)
                if mid:
                    put(*draw(st.sampled_from([("ReportCount", 1), ("ReportSize", szs[0]),
                                               ("LogicalMaximum", logs[0][1]), ("Unit", unitp[-1])])))
                if k == "coll":
                    put("Collection", draw(coll_kinds))
                    depth += 1
                else:
                    put(way, fl)
    while stack:
        put("Pop")
        state = dict(stack.pop())
    for _ in range(depth):
        put("EndCollection")
    return bounded(items)


def bounded(items, each=2500, total=8000):
    """Lower report counts so that fields times usages, what work is about,
    does not exceed these"""
    out, count, stack, n, low, spent = [], 0, [], 0, 0, 0
    for i in items:
        name, value = i[0], i[1]
        if name == "ReportCount":
            count = value
        elif name == "Push":
            stack.append(count)
        elif name == "Pop":
            count = stack.pop()
        elif name in ("Usage", "StringIndex", "DesignatorIndex"):
            n += 1
        elif name.endswith("Minimum") and ref.TAGS[name][0] == ref.LOCAL:
            n -= (value & 0xffff) - 1
        elif name.endswith("Maximum") and ref.TAGS[name][0] == ref.LOCAL:
            n += value & 0xffff
        elif ref.TAGS[name][0] == ref.MAIN:
            if name in ref.DATA:
                work = max(n, 1)
                if count * work > each or spent + count * work > total:
                    if count > 1:
                        count = 1 if spent > total else max(1, min(each // work, 3))
                        out.append(["ReportCount", count])
                spent += count * work
            n = 0
        out.append(i)
    return out


@st.composite
def locals_mix(draw):
    """Data items, each with lists and ranges of usages, strings and
    designators in any mix, order and interleaving"""
    pg = draw(page())
    out = [["UsagePage", pg], ["LogicalMinimum", 0], ["LogicalMaximum", 1], ["ReportSize", draw(sizes)]]
    out += [["Usage", 1], ["Collection", 1]]
    nexts = {"Usage": draw(st.integers(1, 200)), "String": 1, "Designator": 1}
    flags = draw(st.sampled_from([2, 2, 2, 3, 0, 6]))
    few = draw(st.booleans())
    which = draw(st.sets(st.sampled_from(["Usage", "String", "Designator"]), min_size=1))
    for _ in range(draw(st.integers(1, 4))):
        queues = []
        total = 1
        for base in sorted(which):
            one = "Usage" if base == "Usage" else base + "Index"
            q, n = [], 0
            for _ in range(draw(st.integers(0, 2 if few else 5))):
                v = draw(weighted((5, nexts[base]), (2, 0), (2, None)))
                if v is None:
                    v = draw(st.integers(0 if base != "Usage" else 1, 6))
                if base == "Usage" and v == 0:
                    v = 1
                if draw(st.integers(0, 3)) == 0:
                    w = v + draw(st.integers(0, 4))
                    q += [[base + "Minimum", v], [base + "Maximum", w]][::draw(weighted((7, 1), (1, -1)))]
                else:
                    w = v
                    q += [[one, v]]
                    if base == "Usage" and draw(st.integers(0, 5)) == 0:
                        q[-1] = ["Usage", draw(st.sampled_from([pg or 1, 9, 0xff00])) << 16 | v]
                n += w - v + 1
                nexts[base] = w + 1
            if q:
                queues.append(q)
                total = max(total, n)
        for _ in range(sum(map(len, queues))):
            q = draw(st.sampled_from(queues)) if draw(st.booleans()) else queues[0]
            out.append(q.pop(0))
            queues = [x for x in queues if x]
        out.append(["ReportCount", draw(weighted((4, total), (3, 1), (1, total + 1), (1, max(total - 1, 0))))])
        out.append([draw(weighted((5, "Input"), (1, "Feature"))), flags])
    return out + [["EndCollection", 0]]


@st.composite
def stacked(draw):
    """Alike data items between Push, Pop and changes of a few globals, each
    having few values, so that values often come back"""
    vals = {"UsagePage": [1, 9], "LogicalMinimum": [0, -1], "LogicalMaximum": [1, 127], "PhysicalMinimum": [0, -5],
            "PhysicalMaximum": [0, 9], "Unit": [0, 0x11], "UnitExponent": [0, -1], "ReportSize": [8, 4],
            "ReportCount": [1, 1, 3], "ReportID": [1, 2]}
    pool = draw(st.sampled_from([sorted(vals), ["PhysicalMinimum", "PhysicalMaximum", "LogicalMaximum"],
                                 ["UsagePage", "Usage"], ["PhysicalMaximum"], ["ReportCount", "ReportSize"]]))
    mixed = "Usage" in pool
    tags = draw(st.lists(st.sampled_from([x for x in pool if x in vals]), min_size=1, max_size=3, unique=True))
    out = [[n, vals[n][0]] for n in sorted(vals) if n != "ReportID" or n in tags]
    if draw(st.booleans()):
        drop = {"PhysicalMinimum", "PhysicalMaximum", "Unit", "UnitExponent"} - \
            (set(tags) if draw(st.booleans()) else set())
        out = [i for i in out if i[0] not in drop]
    out += [["Usage", 1], ["Collection", 1]]
    depth, pushed, u = 1, 0, 1
    local = draw(weighted((4, "Usage"), (1, None)))
    flags = draw(weighted((4, 2), (1, 3)))
    todo = draw(st.lists(weighted((6, "data"), (3, "push"), (3, "pop"), (5, "set"), (1, "coll"), (1, "end"),
                                  (4, "bracket")), min_size=4, max_size=24))
    ops = []
    for k in todo:
        ops += [k] if k != "bracket" else \
            ["push", "set"] + ["data"] * draw(st.integers(0, 2)) + ["set", "data"] * draw(st.integers(0, 1)) + \
            ["coll"] * (draw(st.integers(0, 3)) == 0) + ["pop"] + ["data"] * draw(st.integers(0, 2)) + \
            ["set"] * draw(st.integers(0, 1)) + ["data"]
    for k in ops:
        if k == "data":
            if local:
                out.append([local, u | draw(st.sampled_from([0, 0x10000, 0x90000, 0x70000])) if mixed and
                            draw(st.booleans()) else u])
            u = u + 1 if draw(st.integers(0, 9)) else 1
            out.append(["Input", flags])
        elif k == "push":
            out.append(["Push", 0])
            pushed += 1
        elif k == "pop" and pushed:
            out.append(["Pop", 0])
            pushed -= 1
        elif k == "set":
            n = draw(st.sampled_from(tags))
            out.append([n, draw(st.sampled_from(vals[n]))])
        elif k == "coll":
            out += [["Usage", 2], ["Collection", 2]] if draw(st.booleans()) else [["Collection", 2]]
            depth += 1
        elif k == "end" and depth > 1:
            out.append(["EndCollection", 0])
            depth -= 1
    return out + [["Pop", 0]] * pushed + [["EndCollection", 0]] * depth


@st.composite
def neighbours(draw, top=False):
    """Single-usage data items, each differing from the former by at most one
    thing; globals are either all repeated, or only told when they change."""
    log = draw(logical())
    ids = draw(st.integers(0, 3)) == 0
    g = {"UsagePage": draw(page()), "LogicalMinimum": log[0], "LogicalMaximum": log[1], "PhysicalMinimum": 0,
         "PhysicalMaximum": 0, "Unit": 0, "UnitExponent": 0, "ReportSize": draw(sizes), "ReportCount": 1}
    for k in draw(st.sets(st.sampled_from(["PhysicalMaximum", "PhysicalMinimum", "Unit", "UnitExponent"]))):
        g[k] = draw(TWEAKS_TO[k])
    if ids:
        g["ReportID"] = draw(report_ids)
    former = dict(g)
    told = {}
    stack = []
    items = [["UsagePage", 1], ["Usage", 2], ["Collection", 1]]
    told["UsagePage"] = 1
    way, flags = draw(st.sampled_from(WAYS)), draw(other_flags) | 2
    uid = draw(st.integers(1, 300))
    full = draw(st.booleans())
    hows = draw(weighted((5, "seq"), (1, "same"), (1, "any"), (1, "none"), (1, "ext")))
    idx = {b: draw(weighted((5, None), (1, "seq"), (1, "same"), (1, "some"))) for b in ("String", "Designator")}
    order = draw(st.permutations(sorted(g)))
    depth = 1
    for n in range(draw(st.integers(2, 9))):
        what = draw(weighted((10, None), (2, "back"), (1, "way"), (2, "flags"), (1, "coll"), (1, "end"), (2, "push"),
                             (2, "pop"), (10, "tweak")))
        if what == "back":
            g = dict(former)
        elif what == "way":
            way = draw(st.sampled_from(WAYS))
        elif what == "flags":
            flags = draw(other_flags) | draw(weighted((5, 2), (1, 0), (1, 3)))
        elif what == "push":
            items.append(["Push", 0])
            stack.append((dict(told), dict(g)))
        elif what == "pop" and stack:
            items.append(["Pop", 0])
            told, g = stack.pop()
        elif what == "tweak":
            former = dict(g)
            k = draw(st.sampled_from(sorted(g)))
            g = dict(g)
            g[k] = draw(st.sampled_from([0, 1, 2, 3])) if k == "ReportCount" else draw(TWEAKS_TO[k])
        elif what == "coll":
            items += [["Usage", 1], ["Collection", draw(coll_kinds)]]
            depth += 1
        elif what == "end" and depth > 1:
            items.append(["EndCollection", 0])
            depth -= 1
        todo = [[k, g[k]] for k in order if full or told.get(k) != g[k]]
        told = dict(g)
        loc = []
        if hows != "none":
            if hows == "any":
                uid = draw(usage_id())
            elif hows != "same":
                uid = min(uid + 1, 0xfff0)
            loc.append(["Usage", g["UsagePage"] << 16 | uid if hows == "ext" else uid])
        for b, h in idx.items():
            if h == "seq":
                loc.append([b + "Index", n + 1])
            elif h == "same":
                loc.append([b + "Index", 4])
            elif h == "some" and draw(st.booleans()):
                loc.append([b + "Index", draw(index)])
        items += todo + loc if draw(st.integers(0, 3)) else \
            [i for i in todo if i[0] == "UsagePage"] + loc + [i for i in todo if i[0] != "UsagePage"]
        items.append([way, flags])
    for _ in stack:
        items.append(["Pop", 0])
    for _ in range(depth):
        items.append(["EndCollection", 0])
    return items


def row_items(r):
    if r["shape"] != "row":
        return tree_items(bulk(r), r["what"] in ("coll", "max", "size") and r["shape"] != "reports")
    out, s, u = [["UsagePage", r["page"]], ["LogicalMinimum", 0], ["LogicalMaximum", r["max"]],
                 ["ReportSize", r["size"]], ["ReportCount", 1], ["Usage", 6], ["Collection", 1]], [], r["base"]
    if r["id"]:
        out.insert(0, ["ReportID", r["id"]])
    for i in range(r["n"]):
        way, back = r["way"], []
        if i == r["at"]:
            w = r["what"]
            for k, tag in (("max", "LogicalMaximum"), ("size", "ReportSize")):
                if w == k:
                    out.append([tag, r[k] + 1])
                    back = [[tag, r[k]]]
            if w == "page":
                out.append(["UsagePage", r["page"] ^ 2 or 1])
            elif w == "skip":
                u += 1
            elif w == "way":
                way = WAYS[(WAYS.index(way) + 1) % 3]
            elif w == "string":
                out.append(["StringIndex", 7])
            elif w == "const":
                out.append([way, 3])
            elif w == "coll":
                out += [["Push", 0], ["Usage", 1], ["Collection", 2]]
                back = [["EndCollection", 0], ["Pop", 0]]
        out.append(["Usage", u])
        for k, b in (("string", "String"), ("designator", "Designator")):
            if r[k] is not None and not (k == "string" and i == r["at"] and r["what"] == "string"):
                out.append([b + "Index", 1 + i * r[k]])
        out.append([way, 2])
        out += back
        u += r["step"]
    return out + [["EndCollection", 0]]


@st.composite
def long_stream(draw, max_bytes=70000):
    """A short well-formed stream, over and over"""
    items = draw(stream(segments=3, top_level=False))
    n = len(ref.encode(items)) or 1
    total = draw(st.sampled_from([300, 1100, 2100, 4200, 8300, 16500, 33000, 66000]))
    return {"items": items, "times": max(2, min(total, max_bytes) // n + 1)}


TIMES = [2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 33]


@st.composite
def late(draw, one):
    """A stream after some others, told as [first, times, last]"""
    a, b = draw(one), draw(one)
    return [a, draw(st.sampled_from(TIMES)), b]


def late_items(c, most=500):
    a, n, b = c
    return bounded(a * min(n, most // (len(a) + 1) + 1) + b)


@st.composite
def late_tree(draw):
    """Description with many parts, the last of them another one"""
    ids = draw(st.booleans())
    parts = []
    for _ in range(2):
        i = draw(report_ids) if ids else None
        c = draw(collection(1, i, ids, 2))
        parts.append({"t": "report", "id": i, "m": [c]} if ids else c)
    return [draw(st.booleans()), parts[0], draw(st.sampled_from(TIMES)), parts[1]]


def late_members(c, most=150):
    wrap, a, n, b = c
    m = [a] * min(n, most // sum(1 for _ in walk(a)) + 1) + [b]
    return {"t": "coll", "kind": 1, "usage": 0x10006, "m": m} if wrap else {"t": "top", "m": m}


def stream_labels(items):
    names = [i[0] for i in items]
    l = set()
    n = sum(x in ref.DATA for x in names)
    l.add("mains:0" if not n else "mains:1-3" if n < 4 else "mains:4-15" if n < 16 else "mains:16+")
    for x in ("Push", "Delimiter", "UsageMinimum", "StringIndex", "DesignatorIndex", "PhysicalMaximum",
              "ReportID", "Unit"):
        if x in names:
            l.add(x)
    if any(i[0] in ref.USAGES and i[1] >> 16 for i in items):
        l.add("extended-usage")
    if any(i[0] in ref.DATA and not i[1] & 3 for i in items):
        l.add("array")
    if any(i[0] in ref.DATA and i[1] & 1 for i in items):
        l.add("constant")
    return l
