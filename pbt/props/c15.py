"""Usage constants: published values, names that evaluate back, consistent lookup"""
import json
import os

from hypothesis import strategies as st

from .. import gens, hr, listing, ref
from ..core import Facet, Property, in_child, require, sut, Violation

U = hr.usage


def scope():
    ns = {}
    exec("from hrdc.usage import *", ns)
    return ns


NS = scope()
TYPES = [v for k, v in sorted(vars(U).items()) if type(v).__name__ == type(U.NAry).__name__]


def constants():
    for m, t in sorted(listing.TABLE.items()):
        for k, (v, kinds) in sorted(t.items()):
            yield [m, k, v, kinds]


def present():
    """Whatever constants modules have now"""
    import types
    for m, mod in sorted(vars(U).items()):
        if isinstance(mod, types.ModuleType):
            for k, v in sorted(vars(mod).items()):
                if isinstance(v, hr.Usage):
                    yield [m, k]


def types_of(x):
    return sorted(t.name for t in TYPES if t.test(x))


def check_published(case):
    m, k, v, kinds = case
    with sut("%s.%s" % (m, k)):
        u = getattr(NS[m], k)
        got, ks = int(u), types_of(u)
    require(got == v, "%s.%s is 0x%x, should be 0x%x", m, k, got, v)
    require(ks == kinds, "%s.%s has types %r, should have %r", m, k, ks, kinds)
    return consistent(u, "%s.%s" % (m, k))


def check_present(case):
    m, k = case
    return consistent(getattr(NS[m], k), "%s.%s" % (m, k))


def consistent(u, text):
    v = int(u)
    with sut("using %s" % text):
        name = str(u)
        look = hr.Usage.lookup(v)
        page, inpage = u.split()
        back = eval(name, dict(NS))
        of_page = hr.Usage.inpage(v >> 16, v & 0xffff)
        res = (int(look), int(page), int(inpage), int(back), int(of_page))
        mod = name.split(".")[0]
    require(name == text, "str() of %s is %r", text, name)
    require(res[0] == v and str(look) == text, "lookup(0x%x) gives %s (0x%x), not %s", v, look, res[0], text)
    require(res[1] == v >> 16 and res[2] == v & 0xffff, "%s splits to %r", text, (res[1], res[2]))
    require(str(page) == mod and str(inpage) == text.split(".", 1)[1], "%s splits to %s, %s", text, page, inpage)
    require(res[3] == v, "%s evaluates to 0x%x, not 0x%x", name, res[3], v)
    require(res[4] == v & 0xffff, "inpage of %s gives 0x%x", text, res[4])
    with sut("usage types of %s" % text):
        kinds = types_of(u)
        for what, x in (("its number", v), ("what its number gives", look), ("what itself gives", hr.Usage.lookup(u))):
            ks = types_of(x)
            require(ks == kinds, "%s has types %r, but %s has %r", text, kinds, what, ks)
    require(hash(u) == hash(look) and u == look and u == v, "%s does not equal what lookup gives", text)
    return {"nt"}


def numbered():
    for f in ("button.Button", "ordinal.Ordinal"):
        for n in list(range(0, 300)) + [1000, 32767, 32768, 65534]:
            yield [f, n]


def check_numbered(case):
    f, n = case
    base = {"button.Button": 0x90000, "ordinal.Ordinal": 0xa0000}[f]
    text = "%s(%d)" % (f, n)
    if n < 128:
        # These are known beforehand
        require(in_child(lambda: str(hr.Usage.lookup(base + n))) == text, "0x%x is not known as %s", base + n, text)

    def child():
        try:
            with sut(text):
                u = eval(text, dict(NS))
            require(int(u) == base + n, "%s is 0x%x", text, int(u))
            consistent(u, text)
        except Violation as e:
            return str(e)
    err = in_child(child)
    require(err is None, "%s", err)
    return {"nt"}


@st.composite
def value(draw):
    return draw(st.one_of(gens.usage(), st.integers(0x10000, 2**32 - 1),
                          st.builds(lambda p, i: p << 16 | i, st.sampled_from(sorted(listing.PAGES)),
                                    st.integers(0, 0xffff))))


def check_any(v):
    """Any 32-bit usage looks up to something standing for it, known or not"""
    with sut("Usage.lookup(0x%x)" % v):
        u = hr.Usage.lookup(v)
        name = str(u)
        got = int(eval(name, dict(NS)))
        p, i = u.split()
        page = hr.Usage.page(v >> 16)
        inp = hr.Usage.inpage(v >> 16, v & 0xffff)
        again = hr.Usage.lookup(u)
        res = (int(u), int(p), int(i), int(page), int(inp), int(again))
    require(res == (v, v >> 16, v & 0xffff, v >> 16, v & 0xffff, v), "lookup of 0x%x gives %r", v,
            ["0x%x" % x for x in res])
    require(got == v, "0x%x is named %s, which is 0x%x", v, name, got)
    known = v in listing.BY_VALUE
    if known:
        require(name == listing.BY_VALUE[v], "0x%x is named %s, should be %s", v, name, listing.BY_VALUE[v])
    return {"known" if known else "unknown", "nt"}


def check_unique(case):
    """No usage gets two names, no page two modules"""
    seen = {}
    for m, k in present():
        v = int(getattr(NS[m], k))
        require(v not in seen, "%s.%s and %s are the same usage 0x%x", m, k, seen.get(v), v)
        seen[v] = "%s.%s" % (m, k)
        if m in listing.TABLE:
            page = next(iter(listing.TABLE[m].values()))[0] >> 16
            require(v >> 16 == page, "%s.%s has page 0x%x", m, k, v >> 16)
    return {"nt"}


ARCADE = json.load(open(os.path.join(os.path.dirname(__file__), "..", "usages_arcade.json")))


def arcade():
    names = sorted(ARCADE)
    return [names[n:n + 6] for n in range(0, len(names), 6)]


def check_arcade(names):
    """Module which is there but not imported by default: once imported, it acts as others"""
    def child():
        ns = {}
        try:
            exec("from hrdc.usage import *\nfrom hrdc.usage import arcade", ns)
            for k in names:
                v, kinds = ARCADE[k]
                u = getattr(ns["arcade"], k)
                look = hr.Usage.lookup(v)
                p, i = u.split()
                got = (int(u), types_of(u), str(u), str(look), int(look), str(p), int(p), str(i),
                       int(i), int(eval(str(u), ns)))
                want = (v, kinds, "arcade." + k, "arcade." + k, v, "arcade", v >> 16, k, v & 0xffff, v)
                if got != want:
                    return "arcade.%s gives %r, should give %r" % (k, got, want)
        except Exception as e:
            return "arcade module: %s: %s" % (type(e).__name__, e)
    err = in_child(child)
    require(err is None, "%s", err)
    return {"nt"}


@st.composite
def vendor(draw):
    return {"v": draw(st.integers(0xff010000, 2**32 - 1)), "name": draw(st.sampled_from(["Foo", "Bar2", "x"])),
            "kinds": draw(st.lists(st.sampled_from(["CA", "CL", "NAry", "Sel", "DV"]), max_size=3, unique=True)),
            "other": draw(st.integers(-2, 2))}


def check_vendor(c):
    """Usages declared by a user are known by name from then on, on their own only"""
    v, name = c["v"], "vendor." + c["name"]
    o = v + c["other"]
    o = o if o < 2**32 else v - 3

    def child():
        try:
            before = str(hr.Usage.lookup(v))
            u = hr.Usage(name, v, *[getattr(U, k) for k in c["kinds"]])
            look, neigh = hr.Usage.lookup(v), hr.Usage.lookup(o)
            p, i = look.split()
            kinds = [k for k in ("CA", "CL", "NAry", "Sel", "DV") if getattr(U, k).test(v)]
            cls = hr.item.Usage(v)
            got = [before, int(u), str(look), int(look), str(neigh), int(neigh), str(p), int(p), str(i), int(i),
                   sorted(kinds), cls.bytes().hex(), str(cls)]
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e), None
        want = [hex(v), v, name, v, name if o == v else hex(o), o, "vendor", v >> 16, c["name"], v & 0xffff,
                sorted(c["kinds"]), "0b" + v.to_bytes(4, "little").hex(), "Usage (%s)" % name]
        return got, want
    got, want = in_child(child)
    require(got == want, "declaring %s: %r, should give %r", name, got, want)
    return {"nt"}


PROPERTY = Property(
    "C15",
    "every published constant (enumerated), every constant the modules hold, Button(n) / Ordinal(n), and random "
    "32-bit usages, and usages a user declares; all are non-trivial",
    [
        Facet("published", check_published, cases=constants, nontrivial=("nt",)),
        Facet("present", check_present, cases=present, nontrivial=("nt",)),
        Facet("numbered", check_numbered, cases=numbered, nontrivial=("nt",)),
        Facet("unique", check_unique, cases=lambda: [[]], nontrivial=("nt",)),
        Facet("arcade", check_arcade, cases=arcade, nontrivial=("nt",)),
        Facet("vendor", check_vendor, vendor(), examples=100, nontrivial=("nt",), thorough=20),
        Facet("any", check_any, value(), examples=3000, nontrivial=("nt",), thorough=60),
    ],
    assumptions=["pbt/usages.json is the published table of constants (reviewed against HID Usage Tables)"])
