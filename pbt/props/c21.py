"""descriptor_expected accepts exactly the descriptor's own bytes"""
import unittest

from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require, sut, Violation
from .c03 import code_text


@st.composite
def case(draw):
    tree = draw(draw(gens.weighted((14, gens.tree(n_max=3)), (1, gens.hollow()))))
    how = draw(st.sampled_from(["same", "same", "byte", "byte", "truncate", "extend", "drop", "dup", "swap", "item", "wide", "wide", "junk", "nothing"]))
    return {"tree": tree, "how": how, "pos": draw(st.integers(0, 10000)), "val": draw(st.integers(1, 255)),
            "seed": draw(st.integers(0, 2**30)), "n": draw(st.integers(1, 4))}


def mutate(blob, c):
    how, pos = c["how"], c["pos"]
    b = bytearray(blob)
    raws = [r for n, v, w, r in ref.decode(blob)]
    if how == "byte" and b:
        b[pos % len(b)] ^= c["val"]
    elif how == "truncate":
        b = b[:max(0, len(b) - c["n"])]
    elif how == "nothing":
        b = b[:0]
    elif how == "extend":
        b += bytes([c["val"]] * c["n"])
    elif raws:
        k = pos % len(raws)
        if how == "drop":
            del raws[k]
        elif how == "dup":
            raws.insert(k, raws[k])
        elif how == "swap":
            j = (k + 1) % len(raws)
            raws[k], raws[j] = raws[j], raws[k]
        elif how == "item":
            raws.insert(k, b"\x75\x08")
        if how in ("drop", "dup", "swap", "item"):
            b = bytearray(b"".join(raws))
    return bytes(b)


def render(blob, seed, wide=None, junk=None):
    """C code with varied layout, from a seed"""
    import random
    r = random.Random(seed)
    out = [r.choice(["", "", "\n    ", "// Descriptor, 0x00\n", "/* 0x05,\n   0x01, */\n", "\t", "\r\n"])]
    for i, x in enumerate(blob):
        if wide and i == wide[0] % len(blob):
            x += wide[1] << 8
        tok = r.choice(["0x%02x", "0x%02x", "0x%02X"]) % x
        if r.random() < .1:
            tok = tok[:2] + "".join(r.choice([d.lower(), d.upper()]) for d in tok[2:])
        if junk and i == junk[0] % len(blob):
            tok = [tok + "g", "@" + tok, tok + " " + tok, tok + ";", "Usage(%s)" % tok][junk[1] % 5]
        out.append(tok)
        if i + 1 < len(blob) or r.random() < .5:
            out.append(r.choice([",", ", ", ",\n    ", " , ", ",\f", ", \v", ",\r\n\t"]))
        if r.random() < .15:
            out.append(r.choice([" // Usage (Mouse), 0x12\n", " /* 0x33, */ ", "\n/* // */\n", "\n// /* \n", "\n\n",
                                 "/* 0x01,\n * 0x02 // x\n **/", "/**/", "//\n", "// it's */ 0x55,\r\n", "\t"]))
    out.append(r.choice(["", "", "\n", " // end", "/* end,\n*/", "\r\n  "]))
    return "".join(out)


class Plain(unittest.TestCase):
    def runTest(self):
        pass


def check_expected(c):
    from hrdc.descriptor.test import descriptor_expected
    d = hr.build_guarded(c["tree"])
    blob = hr.compile_tree(d, True)
    exp = mutate(blob, c)
    bad = c["how"] in ("wide", "junk") and bool(blob)
    text = render(exp, c["seed"], **({c["how"]: (c["pos"], c["val"])} if bad else {}))
    try:
        with sut("descriptor_expected", allow=Exception):
            descriptor_expected(Plain(), d, text)
        ok = True
    except Exception:
        ok = False
    require(ok == (exp == blob and not bad), "descriptor_expected %s %s, compiled is %s; text %r",
            "accepts" if ok else "refuses", exp.hex(), blob.hex(), text)
    return {c["how"], "accepted" if ok else "refused"} | ({"nt"} if len(blob) > 6 else set())


PROPERTY = Property(
    "C21",
    "generated descriptor against its own bytes, or these with one alteration, in varied C layout; non-trivial when "
    "the descriptor exceeds 6 bytes",
    [Facet("expected", check_expected, case(), examples=1200, nontrivial=("nt",), thorough=40)])
