"""Reference model: an independent reading of the HID 1.11 item format.

Nothing in here imports hrdc.  It knows how to encode and decode short items,
how to interpret an item stream to the list of report fields and collections
it declares ("meaning"), and how a high-level descriptor tree (plain JSON
data) is supposed to be laid out.
"""

MAIN, GLOBAL, LOCAL = 0, 1, 2

TAGS = {
    "Input": (MAIN, 0x8), "Output": (MAIN, 0x9), "Feature": (MAIN, 0xb),
    "Collection": (MAIN, 0xa), "EndCollection": (MAIN, 0xc),
    "UsagePage": (GLOBAL, 0x0), "LogicalMinimum": (GLOBAL, 0x1),
    "LogicalMaximum": (GLOBAL, 0x2), "PhysicalMinimum": (GLOBAL, 0x3),
    "PhysicalMaximum": (GLOBAL, 0x4), "UnitExponent": (GLOBAL, 0x5),
    "Unit": (GLOBAL, 0x6), "ReportSize": (GLOBAL, 0x7),
    "ReportID": (GLOBAL, 0x8), "ReportCount": (GLOBAL, 0x9),
    "Push": (GLOBAL, 0xa), "Pop": (GLOBAL, 0xb),
    "Usage": (LOCAL, 0x0), "UsageMinimum": (LOCAL, 0x1),
    "UsageMaximum": (LOCAL, 0x2), "DesignatorIndex": (LOCAL, 0x3),
    "DesignatorMinimum": (LOCAL, 0x4), "DesignatorMaximum": (LOCAL, 0x5),
    "StringIndex": (LOCAL, 0x7), "StringMinimum": (LOCAL, 0x8),
    "StringMaximum": (LOCAL, 0x9), "Delimiter": (LOCAL, 0xa),
}
NAMES = {v: k for k, v in TAGS.items()}
SIGNED = {"LogicalMinimum", "LogicalMaximum", "PhysicalMinimum",
          "PhysicalMaximum", "UnitExponent"}
NOVALUE = {"EndCollection", "Push", "Pop"}
DATA = ("Input", "Output", "Feature")
USAGES = ("Usage", "UsageMinimum", "UsageMaximum")

CONST, VAR = 1, 2


class Malformed(Exception):
    pass


def fits(name, value, width):
    if width == 0:
        return value == 0
    bits = 8 * width
    if name in SIGNED:
        return -(1 << (bits - 1)) <= value < (1 << (bits - 1))
    return 0 <= value < (1 << bits)


def min_width(name, value):
    """Smallest number of data bytes (1, 2 or 4) able to hold value."""
    for w in (1, 2, 4):
        if fits(name, value, w):
            return w
    raise ValueError((name, value))


def encode_item(name, value=0, width=None):
    kind, tag = TAGS[name]
    if width is None:
        width = 0 if name in NOVALUE else min_width(name, value)
    size = {0: 0, 1: 1, 2: 2, 4: 3}[width]
    head = bytes([(tag << 4) | (kind << 2) | size])
    if not width:
        return head
    return head + value.to_bytes(width, "little", signed=name in SIGNED)


def encode(items):
    """items: list of [name, value] or [name, value, width]"""
    return b"".join(encode_item(*i) for i in items)


def decode(blob):
    """-> list of (name, value, width, raw)"""
    out = []
    pos = 0
    while pos < len(blob):
        head = blob[pos]
        width = (0, 1, 2, 4)[head & 3]
        key = ((head >> 2) & 3, head >> 4)
        if key not in NAMES:
            raise Malformed("unknown item 0x%02x at %d" % (head, pos))
        name = NAMES[key]
        raw = blob[pos:pos + 1 + width]
        if len(raw) != 1 + width:
            raise Malformed("truncated item at %d" % pos)
        value = int.from_bytes(raw[1:], "little", signed=name in SIGNED)
        out.append((name, value, width, raw))
        pos += 1 + width
    return out


def items_of(blob):
    """Item sequence as (name, value), forgetting about encoding width"""
    return [(n, v) for n, v, w, r in decode(blob)]


class Field(tuple):
    """(way, report id, bit offset, size, flags, logical, physical, unit,
    exponent, usages, strings, designators, collection index)"""
    NAMES = ("way", "id", "offset", "size", "flags", "logical", "physical",
             "unit", "exponent", "usage", "string", "designator", "collection")

    def __repr__(self):
        return "Field(%s)" % ", ".join(
            "%s=%r" % (k, v) for k, v in zip(self.NAMES, self))


class Meaning:
    """fields: list of Field, in declaration order
    collections: list of (parent index, kind, usages, strings, designators)
    tree: ordered nesting, list of ("f", field#) / ("c", collection#)"""

    def __init__(self):
        self.fields = []
        self.collections = []
        self.order = []


def _zero_is_none(values):
    values = tuple(values)
    return values if any(values) else ()


def interpret(blob, page_at="main", trailing=True):
    """Meaning of an item stream.

    page_at: "main" concatenates short usages with the page which is current
    when the Main item is met (HID 1.11, 6.2.2.8), "usage" with the page which
    is current when the usage is met (what some hosts do).
    """
    m = Meaning()
    g0 = dict(UsagePage=0, LogicalMinimum=0, LogicalMaximum=0,
              PhysicalMinimum=0, PhysicalMaximum=0, UnitExponent=0, Unit=0,
              ReportSize=0, ReportID=0, ReportCount=0)
    g = dict(g0)
    stack = []
    colls = []
    offsets = {}

    def clear():
        return dict(usages=[], strings=[], designators=[], pend={}, delim=None)

    loc = clear()

    def add(kind, v):
        if kind == "usages" and loc["delim"] is not None:
            loc["delim"].append(v)
        else:
            loc[kind].append(v)

    for name, value, width, raw in decode(blob):
        kind = TAGS[name][0]
        if name == "Push":
            stack.append(dict(g))
        elif name == "Pop":
            if not stack:
                raise Malformed("Pop without Push")
            g = stack.pop()
        elif kind == GLOBAL:
            g[name] = value
        elif kind == LOCAL:
            if name in USAGES:
                v = (value >> 16 if width == 4 else
                     (None if page_at == "main" else g["UsagePage"]),
                     value & 0xffff)
            else:
                v = value
            for base, target in (("Usage", "usages"), ("String", "strings"),
                                 ("Designator", "designators")):
                if name == base or name == base + "Index":
                    add(target, v)
                elif name in (base + "Minimum", base + "Maximum"):
                    p = loc["pend"]
                    p[name] = v
                    lo, hi = base + "Minimum", base + "Maximum"
                    if lo in p and hi in p:
                        a, b = p.pop(lo), p.pop(hi)
                        if base == "Usage":
                            pages = {a[0], b[0]}
                            if len(pages) != 1:
                                raise Malformed("range across pages %r %r" % (a, b))
                            for x in range(a[1], b[1] + 1):
                                add(target, (a[0], x))
                        else:
                            for x in range(a, b + 1):
                                add(target, x)
            if name == "Delimiter":
                if value == 1:
                    loc["delim"] = []
                else:
                    d, loc["delim"] = loc["delim"], None
                    loc["usages"].append(tuple(d or ()))
        else:
            page = g["UsagePage"]

            def full(u):
                if u and isinstance(u[0], tuple):
                    return tuple(full(x) for x in u)
                if u == ():
                    return ()
                p = page if u[0] is None else u[0]
                return (p << 16) | u[1]

            usages = tuple(full(u) for u in loc["usages"])
            strings, desigs = tuple(loc["strings"]), tuple(loc["designators"])
            here = colls[-1] if colls else -1
            if name == "Collection":
                m.collections.append((here, value, usages,
                                      _zero_is_none(strings), _zero_is_none(desigs)))
                m.order.append(("c", len(m.collections) - 1))
                colls.append(len(m.collections) - 1)
            elif name == "EndCollection":
                if not colls:
                    raise Malformed("EndCollection without Collection")
                m.order.append(("e", colls.pop()))
            else:
                key = (name, g["ReportID"])
                logical = (g["LogicalMinimum"], g["LogicalMaximum"])
                phys = (g["PhysicalMinimum"], g["PhysicalMaximum"])
                if phys == (0, 0):
                    phys = logical
                for n in range(g["ReportCount"]):
                    off = offsets.get(key, 0)
                    offsets[key] = off + g["ReportSize"]
                    if value & VAR or value & CONST:
                        pick = lambda l: (l[min(n, len(l) - 1)],) if l else ()
                        u, s, d = pick(usages), pick(strings), pick(desigs)
                    else:
                        u, s, d = usages, strings, desigs
                    m.order.append(("f", len(m.fields)))
                    m.fields.append(Field((
                        name, g["ReportID"], off, g["ReportSize"], value,
                        logical, phys, g["Unit"], g["UnitExponent"],
                        u, _zero_is_none(s), _zero_is_none(d), here)))
            loc = clear()
    m.open_collections = len(colls)
    return m


def normal(m, coalesce=False, arrays_plain=False):
    """Comparable form of a Meaning.

    Constant fields carry no data: they only are compared for the bits they
    take.  coalesce: adjacent constant bits (same report, uninterrupted by
    anything but collection boundaries of other things) are compared as a sum:
    the constant bits disappear as fields, offsets of the data fields and total
    report sizes tell about them.
    arrays_plain: physical range, unit and exponent of arrays of selectors (one
    usage for each index) are ignored, as they have no meaning there.
    """
    out = []
    sizes = {}
    for f in m.fields:
        (way, rid, off, size, flags, logical, phys, unit, exp, u, s, d, c) = f
        sizes[(way, rid)] = max(sizes.get((way, rid), 0), off + size)
    for kind, i in m.order:
        if kind == "c":
            out.append(("c",) + m.collections[i])
        elif kind == "e":
            out.append(("e", i))
        else:
            (way, rid, off, size, flags, logical, phys, unit, exp, u, s, d, c) = m.fields[i]
            if flags & CONST:
                if not coalesce:
                    out.append(("pad", way, rid, off, size, flags, c))
                continue
            if size == 0 and coalesce:
                continue
            if arrays_plain and not flags & VAR and u and len(u) == logical[1] - logical[0] + 1:
                phys = unit = exp = None
            out.append(("f", way, rid, off, size, flags, logical, phys, unit,
                        exp, u, s, d, c))
    return {"stream": out, "sizes": sizes}


def diff(a, b, la="expected", lb="actual"):
    """None if equal, or a short explanation"""
    if a == b:
        return None
    sa, sb = a["stream"], b["stream"]
    for n, (x, y) in enumerate(zip(sa, sb)):
        if x != y:
            return "element #%d: %s %r, %s %r" % (n, la, x, lb, y)
    if len(sa) != len(sb):
        longer = sa if len(sa) > len(sb) else sb
        return "%s has %d elements, %s has %d, first extra: %r" % (
            la, len(sa), lb, len(sb), longer[min(len(sa), len(sb))])
    return "report sizes: %s %r, %s %r" % (la, a["sizes"], lb, b["sizes"])


def meanings(blob, **kw):
    """Meaning under both page resolution rules"""
    return [normal(interpret(blob, page_at=p), **kw) for p in ("main", "usage")]


# ---------------------------------------------------------------- descriptor

DEFAULT_FLAGS = VAR


def named_list(named):
    if named is None:
        return None
    if "range" in named:
        return list(range(named["range"][0], named["range"][1] + 1))
    return list(named["list"])


def tree_meaning(tree):
    """Meaning a descriptor tree (JSON form, see gens.py) should have"""
    m = Meaning()
    offsets = {}
    colls = []
    m.pads = []

    def coll(kind, usage):
        m.collections.append((colls[-1] if colls else -1, kind,
                              (usage,) if usage is not None else (), (), ()))
        m.order.append(("c", len(m.collections) - 1))
        colls.append(len(m.collections) - 1)

    def end():
        m.order.append(("e", colls.pop()))

    def field(way, rid, size, flags, logical=(0, 0), phys=(0, 0), unit=0,
              exp=0, u=(), s=(), d=()):
        off = offsets.get((way, rid), 0)
        offsets[(way, rid)] = off + size
        m.order.append(("f", len(m.fields)))
        m.fields.append(Field((way, rid, off, size, flags, logical, phys, unit,
                               exp, u, s, d, colls[-1] if colls else -1)))

    def pad(way, rid, size):
        if size:
            m.pads.append((way, rid, offsets.get((way, rid), 0), size))
            field(way, rid, size, CONST | VAR)

    def pad_to(way, rid, boundary):
        if boundary and boundary > 1:
            rest = offsets.get((way, rid), 0) % boundary
            if rest:
                pad(way, rid, boundary - rest)

    def walk(e, rid):
        t = e["t"]
        if t == "top":
            for c in e["m"]:
                walk(c, rid)
        elif t == "report":
            for c in e["m"]:
                walk(c, e["id"])
        elif t == "coll":
            coll(e["kind"], e["usage"])
            for c in e["m"]:
                walk(c, rid)
            end()
        elif t == "pad":
            pad(e["way"], rid, e["size"])
        elif t == "align":
            pad_to(e["way"], rid, e["boundary"])
        elif t == "val":
            way, size = e["way"], e["size"]
            align = e.get("alignment")
            pad_to(way, rid, min(8, size) if align is None else align)
            flags = e.get("flags", DEFAULT_FLAGS)
            count = e.get("count", 1)
            named = named_list(e.get("named"))
            lmin = e.get("logicalMin", 1)
            usage = e.get("usage")
            s = (e["string"],) if e.get("string", 0) else ()
            d = (e["designator"],) if e.get("designator", 0) else ()
            if named:
                flags &= ~(CONST | VAR)
                logical = (lmin, lmin + len(named) - 1)
                if usage is not None:
                    coll(2, usage)
                for _ in range(count):
                    field(way, rid, size, flags, logical, logical,
                          e.get("unit", 0), e.get("unitExponent", 0),
                          tuple(named), s, d)
                if usage is not None:
                    end()
                return
            logical = (lmin, e.get("logicalMax"))
            pmin, pmax = e.get("physicalMin"), e.get("physicalMax")
            phys = (pmin or 0, pmax or 0) if (pmin or pmax) else logical
            for _ in range(count):
                field(way, rid, size, flags, logical, phys,
                      e.get("unit", 0), e.get("unitExponent", 0),
                      (usage,) if usage is not None else (), s, d)
        else:
            raise ValueError(t)

    walk(tree, 0)
    m.open_collections = 0
    return m
