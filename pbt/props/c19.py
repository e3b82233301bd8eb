"""Results only depend on inputs: no leak between operations, objects not altered"""
import io
import json
import os

from hypothesis import strategies as st

from .. import core, decomp, gens, hr, ref
from ..core import Facet, Property, in_child, require, sut, Violation

FORMATS = ["binary", "hex", "code"]


@st.composite
def op(draw, ntrees, nstreams):
    k = draw(st.sampled_from(["compile", "compile", "compile", "dump", "optimize", "convert", "decompile", "decompile",
                              "lookup", "named", "button", "malformed", "fragment", "fragment", "interleave", "expected"]))
    o = {"op": k, "t": draw(st.integers(0, ntrees - 1)), "s": draw(st.integers(0, nstreams - 1))}
    if k == "compile":
        o["opt"], o["fmt"] = draw(st.booleans()), draw(st.sampled_from(FORMATS))
    elif k == "convert":
        o["opt"], o["fmt"] = draw(st.booleans()), draw(st.sampled_from(FORMATS))
    elif k == "lookup":
        o["v"] = draw(st.one_of(gens.usage(), st.integers(0x90000, 0x90000 + 400)))
    elif k == "button":
        o["v"] = draw(st.integers(0, 127))
    elif k == "named":
        o["v"] = draw(gens.usage())
        o["name"] = draw(st.sampled_from(["foo", "vendor.Foo", "desktop.X", "0x1"]))
    elif k == "fragment":
        # some part of a stream: usages without page, collections left open, Pop without Push
        o["from"], o["n"] = draw(st.integers(0, 20)), draw(st.integers(1, 25))
        o["opt"], o["fmt"] = draw(st.booleans()), draw(st.sampled_from(FORMATS + ["code"]))
    elif k == "malformed":
        o["cut"] = draw(st.integers(1, 3))
    elif k == "interleave":
        o["t2"] = draw(st.integers(0, ntrees - 1))
        o["s2"] = draw(st.integers(0, nstreams - 1))
        o["mask"] = draw(st.integers(0, 2**30 - 1))
    return o


@st.composite
def history(draw):
    trees = [draw(gens.tree(n_max=3)) for _ in range(draw(st.integers(1, 2)))]
    streams = [draw(decomp.stream(segments=5)) for _ in range(draw(st.integers(1, 2)))]
    ops = [draw(op(len(trees), len(streams))) for _ in range(draw(st.integers(3, 8)))]
    return {"trees": trees, "streams": streams, "ops": ops}


def attributes(x):
    """All there is to see in a description, as JSON"""
    def plain(v):
        if isinstance(v, (list, tuple)):
            return [plain(y) for y in v]
        if isinstance(v, hr.UsageRange):
            return ["range", str(v), [int(u) for u in v]]
        if hasattr(v, "accept"):
            return walk(v)
        if v is None or isinstance(v, (str, bool)):
            return v
        return int(v) if hasattr(v, "__int__") else repr(type(v))

    def fields(y):
        if hasattr(y, "__dict__"):
            return vars(y)
        return {k: getattr(y, k) for c in type(y).__mro__ for k in getattr(c, "__slots__", ()) if hasattr(y, k)}

    def walk(y):
        return [type(y).__name__, {k: plain(v) for k, v in fields(y).items() if not k.startswith("_")}]
    return json.dumps(walk(x), sort_keys=True)


class World:
    def __init__(self, case):
        self.case = case
        self.built = {}

    def tree(self, n):
        if n not in self.built:
            self.built[n] = hr.build(self.case["trees"][n])
        return self.built[n]

    def run(self, o):
        """-> outcome, and what happened to descriptions meanwhile"""
        before = {n: attributes(t) for n, t in self.built.items()}
        if o["op"] in ("compile", "dump", "expected") and o["t"] not in before:
            before[o["t"]] = attributes(self.tree(o["t"]))
        r = self.outcome(o)
        for n, a in before.items():
            if attributes(self.built[n]) != a:
                r += " and altered its description: %s became %s" % (a, attributes(self.built[n]))
        return r

    def outcome(self, o):
        try:
            return self._run(o)
        except (KeyboardInterrupt, core.Hang):
            raise
        except Exception as e:
            if isinstance(e, Violation) and e.__cause__ is not None:
                e = e.__cause__
            return "raised %s" % type(e).__name__

    def _run(self, o):
        k = o["op"]
        blob = ref.encode(self.case["streams"][o["s"]])
        if k == "compile":
            r = hr.compile_tree(self.tree(o["t"]), o["opt"], o["fmt"])
            return r.hex() if isinstance(r, bytes) else r
        if k == "dump":
            return hr.dump(self.tree(o["t"]))
        if k == "fragment":
            part = self.case["streams"][o["s"]]
            at = o["from"] % len(part)
            r = hr.convert("binary", ref.encode(part[at:at + o["n"]]), o["fmt"], o["opt"])
            return r.hex() if isinstance(r, bytes) else r
        if k == "named":
            # numbers with a name of their own
            n = hr.NamedConstant(o["name"], o["v"])
            u = hr.Usage.lookup(n)
            i = hr.item.Usage(n)
            return "%s %d %s" % (u, int(u), i.bytes().hex())
        if k == "optimize":
            return hr.optimize_items([i[:2] for i in self.case["streams"][o["s"]]]).hex()
        if k == "convert":
            r = hr.convert("binary", blob, o["fmt"], o["opt"])
            return r.hex() if isinstance(r, bytes) else r
        if k == "decompile":
            root, noise = hr.extract(blob)
            return hr.dump(root) + noise
        if k == "lookup":
            u = hr.Usage.lookup(o["v"])
            p, i = u.split()
            return "%s %d %s %d %s %d" % (u, int(u), p, int(p), i, int(i))
        if k == "button":
            u = hr.usage.button.Button(o["v"])
            return "%s %d" % (u, int(u))
        if k == "malformed":
            r = hr.convert("binary", blob[:-o["cut"]] + b"\xfd", "binary", True)
            return r.hex()
        if k == "expected":
            code = ", ".join("0x%02x" % b for b in hr.compile_tree(self.tree(o["t"]), True))
            import unittest
            from hrdc.descriptor.test import descriptor_expected
            descriptor_expected(unittest.TestCase(), self.tree(o["t"]), code)
            return "as expected"
        if k == "interleave":
            # two compilations fed item by item, in some interleaving
            a, b = hr.Sink(), hr.Sink()
            x, y = hr.optimizer.Optimizer.new(a), hr.optimizer.Optimizer.new(b)
            p = [hr.make_item(*i[:2]) for i in self.case["streams"][o["s"]]]
            q = [hr.make_item(*i[:2]) for i in self.case["streams"][o["s2"]]]
            m = o["mask"]
            n = 0
            while p or q:
                first = bool(m >> (n % 30) & 1)
                n += 1
                if (first and p) or not q:
                    x.append(p.pop(0))
                else:
                    y.append(q.pop(0))
            x.close()
            y.close()
            return a.bytes().hex() + "/" + b.bytes().hex()
        raise ValueError(k)


def alone(case, o):
    w = World(case)
    if o["op"] == "interleave":
        return w.run(dict(o, op="optimize")) + "/" + w.run(dict(o, op="optimize", s=o["s2"]))
    return w.run(o)


def check_history(case):
    def together():
        w = World(case)
        return [w.run(o) for o in case["ops"]]
    got = in_child(together)
    for n, (o, g) in enumerate(zip(case["ops"], got)):
        require(" altered its description" not in g, "step %d (%s) gives %s", n, o["op"], g[:1500])
    for n, (o, g) in enumerate(zip(case["ops"], got)):
        want = in_child(lambda: alone(case, o))
        require(g == want, "step %d of %r gives %r, on its own it gives %r", n, [x["op"] for x in case["ops"]],
                g[:300], want[:300])
    l = {"op:" + o["op"] for o in case["ops"]}
    if len(case["ops"]) >= 3:
        l.add("nt")
    return l


PROPERTY = Property(
    "C19",
    "histories of 3 to 8 operations over shared descriptors and streams in one process; each outcome is compared to "
    "the same operation alone in a fresh process; non-trivial from 3 operations on (all of them)",
    [Facet("history", check_history, history(), examples=640, nontrivial=("nt",), thorough=30)])
