"""What cannot be expressed is refused, never compiled or decompiled to something else"""
import contextlib
import io

from hypothesis import strategies as st

from .. import decomp, gens, hr, ref
from ..core import Facet, Property, require, sut, Violation


def refused(what, f):
    try:
        with sut(what, allow=(Exception,)):
            with contextlib.redirect_stdout(io.StringIO()):
                r = f()
    except Violation as e:
        if isinstance(e.__cause__, Exception):
            return
        raise
    except Exception:
        return
    raise Violation("%s: not refused, gives %s" % (what, r if isinstance(r, str) else r.hex() if isinstance(r, bytes) else r))


# ------------------------------------------------------------- descriptors

@st.composite
def bad_value(draw):
    """A descriptor with one value that does not fit its item"""
    e = {"t": "val", "way": draw(st.sampled_from(gens.WAYS)), "usage": draw(gens.usage()), "size": draw(gens.sizes),
         "logicalMin": 0, "logicalMax": 1}
    over = draw(st.sampled_from([1, 2, 255, 2**31, 2**32, 2**33 + 7]))
    under = draw(st.sampled_from([1, 2, 128, 2**31]))
    rid = 1
    k = draw(st.sampled_from(["logicalMin", "logicalMax", "physicalMin", "physicalMax", "unit", "size", "count",
                              "string", "designator", "usage", "id", "idneg", "unitneg", "sizeneg", "countneg",
                              "stringneg", "designatorneg", "nobounds", "nomax", "nomin", "unitExponent", "kind"]))
    if k in ("logicalMin", "logicalMax", "unitExponent"):
        e[k] = draw(st.sampled_from([2**31 - 1 + over, -2**31 - under]))
    elif k in ("physicalMin", "physicalMax"):
        e[k] = draw(st.sampled_from([2**31 - 1 + over, -2**31 - under]))
    elif k in ("unit", "size", "count", "string", "designator", "usage"):
        e[k] = 2**32 - 1 + over
        e["alignment"] = 1
    elif k.endswith("neg") and k != "idneg":
        e[k[:-3]] = -under
        e["alignment"] = 1
    elif k == "id":
        rid = 255 + over
    elif k == "idneg":
        rid = -under
    elif k == "nobounds":
        del e["logicalMin"], e["logicalMax"]
    elif k == "nomax":
        del e["logicalMax"]
    elif k == "nomin":
        e["logicalMin"] = None
    kind = 1 if k != "kind" else -under
    m = draw(gens.run())[:3]
    at = draw(st.integers(0, len(m)))
    m.insert(at, e)
    return {"why": k, "tree": {"t": "coll", "kind": kind, "usage": 0x10006, "m": [{"t": "report", "id": rid, "m": m}]}}


def check_value(c):
    for opt in (False, True):
        def go():
            d = hr.build(c["tree"])
            out = io.BytesIO()
            s = hr.formatter.Formatter.get("binary")(out)
            if opt:
                s = hr.optimizer.Optimizer.new(s)
            d.accept(hr.descriptor.Streamer(s))
            s.close()
            return out.getvalue()
        refused("compile%s with bad %s" % ("" if opt else " -N", c["why"]), go)
    return {c["why"], "nt"}


# -------------------------------------------------------------- decompiler

@st.composite
def unbalanced(draw):
    items = draw(decomp.stream(segments=5))
    how = draw(st.sampled_from(["end", "open", "pop"]))
    k = None
    if how == "end":
        items = items + [["EndCollection", 0]]
    elif how == "open":
        # last EndCollection lacks
        k = max(i for i, x in enumerate(items) if x[0] == "EndCollection")
        items = items[:k] + items[k + 1:]
    else:
        items = [["Pop", 0]] + items
    return {"items": items, "how": how}


def check_unbalanced(c):
    blob = ref.encode(c["items"])
    refused("decompile of unbalanced (%s) %s" % (c["how"], blob.hex()),
            lambda: hr.dump(hr.extract(blob)[0]))
    return {c["how"], "nt"}


# ------------------------------------------------------------------- text

@st.composite
def bad_code(draw):
    blob = ref.encode(draw(gens.stream(segments=3)))
    toks = ["0x%02x" % b for b in blob]
    k = draw(st.integers(0, len(toks)))
    toks.insert(k, draw(st.sampled_from(["0x100", "zz", "0x", "0xgg", "-0x01", "0x1ff", "Usage", "0x05 0x01", "'a'",
                                         "/* 0x05", "0x123456"])))
    return {"text": ", ".join(toks), "token": toks[k]}


def check_code(c):
    refused("code %r" % c["token"], lambda: hr.convert("code", c["text"], "binary"))
    return {"nt"}


@st.composite
def bad_name(draw):
    return {"name": draw(st.sampled_from(["", "Binary", "bin", "c", "nosuch", "HEX", "hexa"])),
            "which": draw(st.sampled_from(["parser", "formatter"]))}


def check_name(c):
    get = hr.parser.Parser.get if c["which"] == "parser" else hr.formatter.Formatter.get
    refused("%s %r" % (c["which"], c["name"]), lambda: str(get(c["name"])))
    return {"nt"}


PROPERTY = Property(
    "C23",
    "descriptors with one value out of its item's range or lacking bounds, unbalanced streams, broken source text, "
    "unknown formats; all are non-trivial",
    [
        Facet("value", check_value, bad_value(), examples=800, nontrivial=("nt",), thorough=30),
        Facet("unbalanced", check_unbalanced, unbalanced(), examples=300, nontrivial=("nt",), thorough=30),
        Facet("code", check_code, bad_code(), examples=300, nontrivial=("nt",), thorough=30),
        Facet("name", check_name, bad_name(), examples=40, nontrivial=("nt",), thorough=2),
    ])
