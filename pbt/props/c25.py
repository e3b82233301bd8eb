"""Visitors, streams, formats and passes of the user's take part like the library's own"""
import io

from hypothesis import strategies as st

from .. import core, gens, hr, ref
from ..core import Facet, Property, require, sut

D = hr.descriptor
BASES = {"top": D.TopLevel, "report": D.Report, "coll": D.Collection}


class Boom(Exception):
    """What a part of the user's raises"""


Visitor = D.descriptor.Visitor


class Walker(Visitor):
    def __init__(self, fail=None):
        self.calls = []
        self.fail = fail
        self.failed = False

    def note(self, what, e):
        if not self.failed and self.fail == len(self.calls):
            self.failed = True
            raise Boom
        self.calls.append((what, e))

    def enter(self, e):
        self.note("enter", e)

    def leave(self, e):
        self.note("leave", e)

    def element(self, e):
        self.note("element", e)


class Partial(Visitor):
    """Cares for values only"""

    def __init__(self):
        self.seen = []

    def element(self, e):
        self.seen.append(e)


def walk(spec, e):
    """What a visitor has to get, from the description as generated"""
    if spec["t"] in BASES:
        yield "enter", e
        for s, m in zip(spec["m"], e):
            yield from walk(s, m)
        yield "leave", e
    else:
        yield "element", e


@st.composite
def visit(draw):
    return {"tree": draw(gens.tree()), "fail": draw(st.integers(0, 400))}


def size(spec):
    return 2 + sum(map(size, spec["m"])) if spec["t"] in BASES else 1


def check_visit(c):
    tree = c["tree"]
    d = hr.build_guarded(tree)
    before = hr.compile_tree(d, False)
    want = list(walk(tree, d))
    n = size(tree)
    require(len(want) == n, "description has %d visits, %d were made of it", n, len(want))
    for again in range(2):
        v = Walker()
        with sut("visiting"):
            r = d.accept(v)
        bad = [k for k, (a, b) in enumerate(zip(want, v.calls)) if a[0] != b[0] or a[1] is not b[1]]
        require(not bad, "visit %d is %r of %s, should be %r of %s", bad[:1], *(
            x for k in bad[:1] for p in (v.calls[k], want[k]) for x in (p[0], type(p[1]).__name__)))
        require(len(v.calls) == n, "%d visits for %d", len(v.calls), n)
    p = Partial()
    with sut("visiting with a visitor that has some methods only"):
        d.accept(p)
    vals = [e for k, e in want if k == "element"]
    require(len(p.seen) == len(vals) and all(a is b for a, b in zip(p.seen, vals)), "partial visitor misses values")
    k = c["fail"] % n
    v = Walker(k)
    try:
        d.accept(v)
        require(False, "exception of visitor is lost at visit %d", k)
    except Boom:
        pass
    require(len(v.calls) == k, "visits go on after an exception")
    require(hr.compile_tree(d, False) == before, "visiting alters the description")
    return gens.tree_labels(tree) | ({"nt"} if n > 4 else set())


class Derived:
    """Classes of the user's"""
    for _n in ("TopLevel", "Report", "Collection", "Value", "Padding", "Align"):
        locals()[_n] = type("My" + _n, (getattr(D, _n),), {"extra": 1})


def check_derived(tree):
    a = hr.build_guarded(tree)
    with sut("deriving"):
        b = hr.build(tree, Derived)
    for o in (False, True):
        x, y = hr.compile_tree(a, o), hr.compile_tree(b, o)
        require(x == y, "elements of derived classes compile to %s, not %s", y.hex(), x.hex())
    if tree["t"] in BASES:
        require(hr.dump(a) == hr.dump(b), "elements of derived classes print as\n%s\nnot\n%s", hr.dump(b), hr.dump(a))
    return gens.tree_labels(tree) | ({"nt"} if size(tree) > 4 else set())


NAMES = ["Mine", "YAML", "c_array", "Rust", "X1", "HEXDUMP", "verilogRom", "hexx", "Code2", "Bin"]


@st.composite
def formats(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4))
    return {"names": names, "items": draw(gens.stream(segments=6)), "O": draw(st.booleans()),
            "tree": draw(st.none() | gens.tree(n_max=3)), "fail": draw(st.none() | st.integers(0, 40))}


def make_formatter(name, mark):
    def init(self, output):
        self.out = output
        self.got = []
        self.closed = 0

    def append(self, i):
        if getattr(self, "fail", None) == len(self.got):
            raise Boom
        self.got.append(i.bytes())
        self.out.write(",".join("%d" % b for b in i.bytes()) + ";")

    def close(self):
        self.closed += 1
        self.out.write("end")

    return type(name, (hr.formatter.Formatter,), {"__init__": init, "append": append, "close": close, "mark": mark})


def make_parser(name, mark):
    def init(self, input, output):
        self.src = input
        self.dst = output

    def read(self):
        for n, v in eval(self.src.read()):
            self.dst.append(hr.make_item(n, v))
        self.dst.close()

    return type(name, (hr.parser.Parser,), {"__init__": init, "read": read, "mark": mark})


def guarded(f, c):
    try:
        return sorted(f(c))
    except core.Violation as e:
        return ["!" + str(e)]


def relay(f):
    def check(c):
        l = core.in_child(lambda: guarded(f, c))
        if l and l[0].startswith("!"):
            raise core.Violation(l[0][1:])
        return set(l)
    return check


def run_formats(c):
    own = {}
    for k, n in enumerate(c["names"]):
        with sut("defining a format"):
            own[n.lower()] = make_formatter(n, k), make_parser(n, k)
            for m, (f, p) in own.items():
                require(hr.formatter.Formatter.get(m) is f, "format %s is not the one last defined", m)
                require(hr.parser.Parser.get(m) is p, "parser %s is not the one last defined", m)
    blob = ref.encode([i[:2] for i in c["items"]])
    name = c["names"][-1].lower()
    plain = hr.convert("binary", blob, "binary", optimize=c["O"])
    # output by a format of the user's
    def through(feed, fail=None):
        out = io.StringIO()
        f = hr.formatter.Formatter.get(name)(out)
        f.fail = fail
        s = hr.optimizer.Optimizer.new(f) if c["O"] else f
        feed(s)
        return f, out.getvalue()
    feeds = [("converting", lambda s: hr.parser.Parser.get("binary")(io.BytesIO(blob), s).read(), plain)]
    if c["tree"]:
        t = hr.build_guarded(c["tree"])
        def comp(s):
            t.accept(D.Streamer(s))
            s.close()
        feeds.append(("compiling", comp, hr.compile_tree(t, c["O"])))
    for what, feed, want in feeds:
        with sut(what):
            f, text = through(feed)
        require(b"".join(f.got) == want, "%s to a format of the user's gives it %s, binary gives %s", what,
                b"".join(f.got).hex(), want.hex())
        require(f.closed == 1 and text.endswith("end"), "%s: format is ended %d times", what, f.closed)
        require(text.count(";") == len(f.got), "%s: output is lost", what)
        if c["fail"] is not None and f.got:
            k = c["fail"] % len(f.got)
            try:
                through(feed, k)
                require(False, "%s: exception of a format of the user's at item %d is lost", what, k)
            except Boom:
                pass
    # and input by a parser of the user's
    items = [i[:2] for i in c["items"]]
    got = hr.convert(name, repr(items), "binary", optimize=c["O"])
    want = hr.optimize_items(items) if c["O"] else b"".join(hr.make_item(*i).bytes() for i in items)
    require(got == want, "parser of the user's: %s, its items are %s", got.hex(), want.hex())
    # builtin ones are as they were
    for fmt in ("binary", "hex", "code"):
        o = hr.convert("binary", blob, fmt)
        require(hr.convert(fmt, o, "binary") == hr.convert("binary", blob, "binary"), "%s is disturbed", fmt)
    for n in ("nosuch", name + "x", ""):
        for r in (hr.formatter.Formatter, hr.parser.Parser):
            try:
                r.get(n)
                ok = n in own
            except Exception:
                ok = n not in own
            require(ok, "format %r exists without definition", n)
    return {"nt", "O" if c["O"] else "plain"}


@st.composite
def passes(draw):
    ps = draw(st.lists(st.sampled_from([1, 5, 15, 25, 32, 38, 45, 55, 65, 75, 99, 0, 100, 150, -3]), min_size=1,
                       max_size=4, unique=True))
    return {"prec": ps, "items": draw(st.one_of(gens.stream(segments=8), gens.neighbours(), gens.locals_mix())),
            "window": draw(st.none() | st.tuples(st.sampled_from([0, 5, 20, 45]),
                                                 st.sampled_from([100, 60, 75, 200])).map(list)),
            "fail": draw(st.none() | st.integers(0, 40))}


def make_pass(k, prec, log, fail):
    def init(self, stream):
        self.next = stream
        log.append([prec, [], 0])
        self.log = log[-1]

    def append(self, i):
        if fail is not None and fail == len(self.log[1]):
            raise Boom
        self.log[1].append(i.bytes())
        self.next.append(i)

    def close(self):
        self.log[2] += 1
        self.next.close()

    return type("Pass%d" % k, (hr.optimizer.Optimizer,),
                {"precedence": prec, "__init__": init, "append": append, "close": close})


def opt(items, window):
    sink = hr.Sink()
    with sut("optimize"):
        s = hr.optimizer.Optimizer.new(sink, *(window or ()))
        for i in items:
            s.append(hr.make_item(*i))
        s.close()
    require(sink.closed == 1, "output is ended %d times", sink.closed)
    return [i.bytes() for i in sink.items]


def run_passes(c):
    items = [i[:2] for i in c["items"]]
    w = c["window"]
    lo, hi = w or (0, 100)
    plain = opt(items, w)
    inside = [p for p in c["prec"] if lo < p < hi]
    want = {p: opt(items, [p, hi]) for p in inside}
    log = []
    with sut("defining passes"):
        for k, p in enumerate(c["prec"]):
            make_pass(k, p, log, None)
    got = opt(items, w)
    require(got == plain, "a pass that hands items through turns %s to %s", b"".join(plain).hex(), b"".join(got).hex())
    require(sorted(l[0] for l in log) == sorted(inside), "passes of precedence %r take part in %r..%r, should be %r",
            [l[0] for l in log], lo, hi, inside)
    for p, seen, closed in log:
        require(closed == 1, "pass of precedence %d is ended %d times", p, closed)
        require(seen == want[p], "pass of precedence %d gets %s, passes before it give %s", p, b"".join(seen).hex(),
                b"".join(want[p]).hex())
    if c["fail"] is not None and plain:
        p = lo + 1                              # last one
        make_pass(99, p, [], c["fail"] % len(opt(items, [p, hi])))
        require(raises(items, w), "exception of a pass is lost")
    return {"nt" if inside else "outside", "several" if len(inside) > 1 else "single",
            "shrunk" if b"".join(plain) != b"".join(hr.make_item(*i).bytes() for i in items) else "same"}


def raises(items, w):
    """-> whether the exception got out"""
    sink = hr.Sink()
    s = hr.optimizer.Optimizer.new(sink, *(w or ()))
    try:
        for i in items:
            s.append(hr.make_item(*i))
        s.close()
        return False
    except Boom:
        return True


PROPERTY = Property(
    "C25",
    "visitors, derived elements, formats, parsers and optimizer passes defined by the check, along generated "
    "descriptions and streams; non-trivial when description has some members, or a pass takes part",
    [
        Facet("visit", check_visit, visit(), examples=400, nontrivial=("nt",), thorough=40),
        Facet("derived", check_derived, gens.tree(), examples=300, nontrivial=("nt",), thorough=40),
        Facet("formats", relay(run_formats), formats(), examples=200, nontrivial=("nt",), thorough=40),
        Facet("passes", relay(run_passes), passes(), examples=300, nontrivial=("nt",), thorough=40),
    ])
