"""Thin driver over hrdc's public interface."""
import contextlib
import io
import sys

from .core import sut, Violation, require
from . import ref

import hrdc.stream as _stream
from hrdc.stream import item, parser, formatter, optimizer
from hrdc import descriptor, usage
from hrdc.descriptor.extractor import Extractor
from hrdc.descriptor.dumper import Dumper
from hrdc.usage import Usage, UsageRange
from hrdc.util import NamedConstant


class Sink(_stream.Stream):
    """Collects items"""

    def __init__(self):
        self.items = []
        self.closed = 0
        self.late = False

    def append(self, i):
        self.items.append(i)
        self.late = self.late or bool(self.closed)

    def close(self):
        self.closed += 1

    def bytes(self):
        return b"".join(i.bytes() for i in self.items)


def make_item(name, value=0):
    cls = getattr(item, name)
    if name in ref.NOVALUE:
        return cls()
    return cls(value)


def parse_text(fmt, source, stream):
    p = parser.Parser.get(fmt)(source, stream)
    p.read()


def source_of(fmt, data):
    """data: bytes for binary, str else"""
    return io.BytesIO(data) if fmt == "binary" else io.StringIO(data)


def convert(ifmt, data, ofmt, optimize=False, window=None):
    """What hrdc.converter does, in process"""
    out = io.BytesIO() if ofmt == "binary" else io.StringIO()
    with sut("convert %s -> %s%s" % (ifmt, ofmt, " -O" if optimize else "")):
        s = formatter.Formatter.get(ofmt)(out)
        if optimize:
            s = optimizer.Optimizer.new(s) if window is None else \
                optimizer.Optimizer.new(s, *window)
        parser.Parser.get(ifmt)(source_of(ifmt, data), s).read()
        return out.getvalue()


def optimize_items(items, window=None):
    """Append ready-made items ([name, value]) to an optimizer"""
    sink = Sink()
    with sut("optimize"):
        s = optimizer.Optimizer.new(sink) if window is None else \
            optimizer.Optimizer.new(sink, *window)
        for i in items:
            s.append(make_item(*i[:2]))
        require(sink.closed == 0, "optimizer ends its output before its input ends")
        s.close()
        out = sink.bytes()
    require(sink.closed == 1 and not sink.late, "optimizer ends its output %d times%s", sink.closed,
            ", and goes on afterwards" if sink.late else "")
    return out


def optimize_blob(blob, window=None):
    return convert("binary", blob, "binary", optimize=True, window=window)


def compile_tree(tree, optimize, fmt="binary", window=None):
    out = io.BytesIO() if fmt == "binary" else io.StringIO()
    with sut("compile%s" % ("" if optimize else " -N")):
        s = formatter.Formatter.get(fmt)(out)
        if optimize:
            s = optimizer.Optimizer.new(s) if window is None else \
                optimizer.Optimizer.new(s, *window)
        tree.accept(descriptor.Streamer(s))
        s.close()
        return out.getvalue()


WAYS = {"Input": descriptor.Value.Input, "Output": descriptor.Value.Output,
        "Feature": descriptor.Value.Feature}
KINDS = [descriptor.Collection.Physical, descriptor.Collection.Application,
         descriptor.Collection.Logical, descriptor.Collection.Report,
         descriptor.Collection.NamedArray, descriptor.Collection.UsageSwitch,
         descriptor.Collection.UsageModifier]


SYMBOLS = {
    "flags": {1 << n: getattr(descriptor.Value, f) for n, f in enumerate(
        ["Constant", "Variable", "Relative", "Wrap", "NonLinear", "NoPreferred", "NullState", "Volatile",
         "BufferedBytes"])},
    "unit": {v: getattr(descriptor.Unit, k) for k, v in (
        ("SILinear", 1), ("Centimeter", 0x11), ("Radian", 0x12), ("Inch", 0x13), ("Degree", 0x14), ("Gram", 0x101),
        ("Second", 0x1000), ("Kelvin", 0x10001), ("G", 0xe011), ("Newton", 0xe111), ("Volt", 0xf0d121))},
}


def mk_usage(u):
    """Symbolic constant for known usages, int for others"""
    if u is None:
        return None
    k = Usage.lookup(u)
    return u if str(k).startswith("0x") else k


def build(e, D=descriptor):
    """JSON tree -> descriptor objects, of the classes in D"""
    t = e["t"]
    if t in ("top", "report", "coll"):
        members = [build(x, D) for x in e["m"]]
        if t == "top":
            return D.TopLevel(*members)
        if t == "report":
            return D.Report(e["id"], *members)
        kind = KINDS[e["kind"]] if 0 <= e["kind"] < len(KINDS) and (len(members) % 4 != 3) else e["kind"]
        return D.Collection(kind, mk_usage(e["usage"]), *members)
    if t == "pad":
        return D.Padding(WAYS[e["way"]], e["size"])
    if t == "align":
        return D.Align(WAYS[e["way"]], e["boundary"])
    kw = {}
    for k in ("flags", "logicalMin", "logicalMax", "physicalMin", "physicalMax",
              "unit", "unitExponent", "designator", "string", "count", "alignment"):
        if k in e:
            kw[k] = e[k]
    if e["size"] % 2:
        # numbers or constants, both are fine
        kw.update((k, SYMBOLS[k][kw[k]]) for k in SYMBOLS if kw.get(k) in SYMBOLS[k])
    n = e.get("named")
    if n is not None:
        if "range" in n:
            kw["namedArray"] = UsageRange(mk_usage(n["range"][0]), mk_usage(n["range"][1]))
        else:
            kw["namedArray"] = (tuple if len(n["list"]) % 3 == 2 else list)(mk_usage(x) for x in n["list"])
    return D.Value(WAYS[e["way"]], mk_usage(e.get("usage")), e["size"], **kw)


def build_guarded(e):
    with sut("building the descriptor"):
        return build(e)


def extract(blob, fmt="binary", data=None):
    """Decompile to a descriptor tree; nothing may get written meanwhile"""
    x = Extractor()
    noise = io.StringIO()
    with sut("decompile"):
        with contextlib.redirect_stdout(noise):
            parser.Parser.get(fmt)(source_of(fmt, blob if data is None else data), x).read()
        root = x.root
    return root, noise.getvalue()


def dump(root):
    out = io.StringIO()
    with sut("dump"):
        root.accept(Dumper(out))
    return out.getvalue()


def exec_script(text):
    """Run a decompiled script the way `import` would, get its descriptor"""
    ns = {"__name__": "decompiled"}
    with sut("running the decompiled script"):
        exec(compile(text, "<decompiled>", "exec"), ns)
        return ns["descriptor"]


def tree_json(e):
    """Descriptor objects -> JSON tree (only through documented attributes)"""
    D = descriptor
    if isinstance(e, D.TopLevel):
        return {"t": "top", "m": [tree_json(x) for x in e]}
    if isinstance(e, D.Report):
        return {"t": "report", "id": int(e.id), "m": [tree_json(x) for x in e]}
    if isinstance(e, D.Collection):
        return {"t": "coll", "kind": int(e.kind),
                "usage": None if e.usage is None else int(e.usage),
                "m": [tree_json(x) for x in e]}
    way = {int(v): k for k, v in WAYS.items()}[int(e.way)]
    if isinstance(e, D.Align):
        return {"t": "align", "way": way, "boundary": int(e.boundary)}
    if isinstance(e, D.Padding):
        return {"t": "pad", "way": way, "size": int(e.size)}
    opt = lambda v: None if v is None else int(v)
    r = {"t": "val", "way": way, "usage": opt(e.usage) or None, "size": int(e.size),
         "flags": int(e.flags), "logicalMin": opt(e.logicalMin),
         "logicalMax": opt(e.logicalMax), "physicalMin": opt(e.physicalMin),
         "physicalMax": opt(e.physicalMax), "unit": int(e.unit),
         "unitExponent": int(e.unitExponent), "designator": int(e.designator),
         "string": int(e.string), "count": int(e.count),
         "alignment": int(e.alignment)}
    if e.namedArray:
        r["named"] = {"list": [int(u) for u in e.namedArray]}
        r["physicalMin"] = r["physicalMax"] = None
        r["logicalMax"] = None
    return r
