"""Descriptions are plain containers: built step by step, or sharing parts, they compile alike"""
from hypothesis import strategies as st

from .. import gens, hr, ref
from ..core import Facet, Property, require, sut, Violation

MAKERS = ["top", "coll", "report"]


@st.composite
def history(draw):
    """Operations on one container, replayed on a list as model"""
    leaves = [draw(st.one_of(gens.run().map(lambda r: r[0]), gens.named_value(), gens.padding(), gens.align()))
              for _ in range(draw(st.integers(2, 5)))]
    kind = draw(st.sampled_from(MAKERS))
    init = draw(st.lists(st.integers(0, len(leaves) - 1), max_size=4))
    ops = []
    n = len(init)
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(["append", "append", "append", "pop", "len", "get", "iter", "compile", "nest", "again", "many", "wrap"]))
        if k == "pop" and n == 0:
            k = "append"
        if k in ("append", "nest"):
            ops.append([k, draw(st.integers(0, len(leaves) - 1))])
            n += 1
        elif k == "again" and n:
            ops.append([k, draw(st.integers(0, n - 1))])
            n += 1
        elif k == "many" and n < 20 and draw(st.integers(0, 5)) == 0:
            m = draw(st.sampled_from([20, 60, 130, 260]))
            ops.append([k, m])
            n += m
        elif k in ("again", "many"):
            ops.append(["len", 0])
        elif k == "pop":
            ops.append([k, 0])
            n -= 1
        elif k == "get":
            ops.append([k, draw(st.integers(-n - 1, n + 1))])
        elif k == "wrap":
            ops.append([k, draw(st.integers(0, 8))])
        else:
            ops.append([k, 0])
    return {"leaves": leaves, "kind": kind, "init": init, "ops": ops}




def compile_(kind, obj):
    """Compile a container, put in a collection when it is not one"""
    D = hr.descriptor
    with sut("embedding"):
        if kind != "coll":
            obj = D.Collection(D.Collection.Application, 0x10006, obj)
    return hr.compile_tree(obj, False), hr.compile_tree(obj, True)


def check_history(c):
    D = hr.descriptor
    leaves = [hr.build_guarded(x) for x in c["leaves"]]
    mk = {"top": lambda *m: D.TopLevel(*m), "report": lambda *m: D.Report(3, *m),
          "coll": lambda *m: D.Collection(D.Collection.Application, 0x10006, *m)}[c["kind"]]
    with sut("constructor"):
        obj = mk(*[leaves[i] for i in c["init"]])
    model = [leaves[i] for i in c["init"]]
    js = [c["leaves"][i] for i in c["init"]]
    l = set()
    for n, (k, x) in enumerate(c["ops"]):
        what = "step %d (%s)" % (n, k)
        if k == "append":
            with sut(what):
                obj.append(leaves[x])
            model.append(leaves[x])
            js.append(c["leaves"][x])
        elif k == "nest":
            with sut(what):
                sub = D.Collection(D.Collection.Logical, 0x10001, leaves[x])
                obj.append(sub)
            model.append(sub)
            js.append({"t": "coll", "kind": 2, "usage": 0x10001, "m": [c["leaves"][x]]})
        elif k == "again":
            # one more time the same object, be it a value or a collection
            with sut(what):
                obj.append(model[x])
            model.append(model[x])
            js.append(js[x])
            l.add("again")
        elif k == "many":
            for i in range(x):
                with sut(what):
                    obj.append(leaves[i % len(leaves)])
                model.append(leaves[i % len(leaves)])
                js.append(c["leaves"][i % len(leaves)])
            l.add("many")
        elif k == "wrap":
            # being a member of something that grows or shrinks does not matter
            with sut(what):
                w = [lambda *m: D.TopLevel(*m), lambda *m: D.Report(7, *m),
                     lambda *m: D.Collection(D.Collection.Physical, 0x10001, *m)][x % 3](obj)
                if x // 3 == 0:
                    w.append(leaves[0])
                elif x // 3 == 1:
                    w.pop()
                size, got = len(w), len(obj)
            require(got == len(model), "%s: length is %d, should be %d", what, got, len(model))
            require(size == [2, 0, 1][x // 3], "%s: wrapper has length %d", what, size)
            l.add("wrap")
        elif k == "pop":
            with sut(what):
                obj.pop()
            model.pop()
            js.pop()
        elif k == "len":
            with sut(what):
                got = len(obj)
            require(got == len(model), "%s: length is %d, should be %d", what, got, len(model))
        elif k == "iter":
            with sut(what):
                got = list(obj)
            require(len(got) == len(model) and all(a is b for a, b in zip(got, model)),
                    "%s: iteration does not give the members", what)
        elif k == "get":
            try:
                want = model[x]
            except IndexError:
                want = None
            try:
                with sut(what, allow=(IndexError,)):
                    got = obj[x]
            except IndexError:
                got = None
            require(got is want, "%s: [%d] of %d members is wrong", what, x, len(model))
        else:
            same(c["kind"], obj, js, what)
            l.add("compiled")
    with sut("reading members"):
        got, size = list(obj), len(obj)
    require(size == len(model) and len(got) == size and all(a is b for a, b in zip(got, model)),
            "at last: members are not those that were put")
    same(c["kind"], obj, js, "at last")
    if len({i for i in c["init"]} | {x for k, x in c["ops"] if k == "append"}) < \
            len(c["init"]) + sum(k == "append" for k, x in c["ops"]):
        l.add("shared")
    return l | {"nt"} if len(c["ops"]) > 2 else l


def same(kind, obj, js, what):
    """Compiles to what it holds"""
    tree = {"t": "coll", "kind": 1, "usage": 0x10006,
            "m": list(js) if kind != "report" else [{"t": "report", "id": 3, "m": list(js)}]}
    for blob in compile_(kind, obj):
        d = ref.diff(ref.normal(ref.tree_meaning(tree), coalesce=True),
                     ref.normal(ref.interpret(blob), coalesce=True), "held", "compiled")
        require(d is None, "%s: %s", what, d)


@st.composite
def composite(draw):
    """Several device descriptors merged to one: reports get their own IDs"""
    parts = [draw(gens.tree(n_max=2).filter(lambda t: not any(e["t"] == "report" for e in gens.walk(t))))
             for _ in range(draw(st.integers(1, 3)))]
    return {"parts": parts, "opt": draw(st.booleans())}



def check_composite(c):
    """Report(n, part) declares what part alone does, under report ID n"""
    D = hr.descriptor
    objs = [hr.build_guarded(p) for p in c["parts"]]
    with sut("merging"):
        top = D.TopLevel(*[D.Report(n + 1, o) for n, o in enumerate(objs)])
    got = ref.normal(ref.interpret(hr.compile_tree(top, c["opt"])), coalesce=True)["stream"]
    want = []
    shift = 0
    for n, o in enumerate(objs):
        m = ref.normal(ref.interpret(hr.compile_tree(o, c["opt"])), coalesce=True)["stream"]
        ncoll = 0
        for e in m:
            e = list(e)
            if e[0] == "c":
                ncoll += 1
                e[1] += shift if e[1] >= 0 else 0
            elif e[0] == "e":
                e[1] += shift
            else:
                e[2] = n + 1
                e[-1] += shift
            want.append(tuple(e))
        shift += ncoll
    require(got == want, "composite declares %r, parts declare %r", got, want)
    return {"parts:%d" % len(objs), "nt"}


PROPERTY = Property(
    "C24",
    "history: container operations replayed on a list (non-trivial from 3 operations on); composite: descriptors "
    "merged under their own report IDs",
    [
        Facet("history", check_history, history(), examples=900, nontrivial=("nt",), thorough=30),
        Facet("composite", check_composite, composite(), examples=400, nontrivial=("nt",), thorough=30),
    ])
