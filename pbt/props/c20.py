"""Command line tools do what the library does, on files and on pipes"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from .. import core, decomp, gens, hr, ref
from ..core import Facet, Property, require, sut
from .c03 import FORMATS, code_text, hex_text, strict
from .c05 import same_meaning

ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": core.REPO, "PYTHONDONTWRITEBYTECODE": "1",
       "PYTHONHASHSEED": "0", "LANG": "C.UTF-8"}


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="hrdc-pbt-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, args, data=b""):
        try:
            p = subprocess.run([sys.executable, "-B"] + args, input=data, capture_output=True, cwd=self.dir, env=ENV,
                               timeout=60)
        except subprocess.TimeoutExpired:
            require(False, "%r does not end", args)
        return p

    def occupy(self, name, fout):
        """Output file may exist already, it gets replaced"""
        if fout == "old":
            with open(os.path.join(self.dir, name), "wb") as f:
                f.write(b"0xff, former contents\n" * 200)

    def tool(self, args, data, fin, fout, what):
        """Feed data by file or standard input, get output from file or standard output"""
        names = []
        if fin:
            with open(os.path.join(self.dir, "in.dat"), "wb") as f:
                f.write(data)
            names.append("in.dat")
        elif fout:
            names.append("-")
        if fout:
            names.append("out.dat")
            self.occupy("out.dat", fout)
        p = self.run(args + names, b"" if fin else data)
        require(p.returncode == 0, "%s: exit code %d: %s", what, p.returncode, p.stderr.decode()[-400:])
        if fout:
            require(p.stdout == b"", "%s: writes %r to standard output too", what, p.stdout[:200])
            with open(os.path.join(self.dir, "out.dat"), "rb") as f:
                return f.read()
        return p.stdout


@st.composite
def conversion(draw):
    items = draw(gens.stream(segments=6))
    fmt = draw(st.sampled_from(FORMATS))
    blob = ref.encode(items)
    text = draw(code_text(blob)) if fmt == "code" else draw(hex_text(blob)) if fmt == "hex" else None
    return {"items": items, "in": fmt, "text": text, "out": draw(st.sampled_from(FORMATS)), "O": draw(st.booleans()),
            "fin": draw(st.booleans()), "fout": draw(st.sampled_from(["", "new", "old"])), "long": draw(st.booleans()),
            "times": draw(gens.weighted((9, 1), (1, 700))) if not text else 1}


def options(c):
    a = []
    if c.get("in", "binary") != "binary" or c["long"]:
        a += ["--input-format" if c["long"] else "-i", c["in"]] if "in" in c else []
    if c["out"] != "binary" or c["long"]:
        a += ["--output-format" if c["long"] else "-o", c["out"]]
    return a


def decode(fmt, out, what):
    try:
        data = out if fmt == "binary" else out.decode("ascii")
        got = strict(fmt, data)
        ref.decode(got)
        return got
    except (UnicodeDecodeError, ref.Malformed, ValueError) as e:
        require(False, "%s: output is malformed: %s: %r", what, e, out[:200])


def check_convert(c):
    blob = ref.encode(c["items"])
    if c["times"] > 1:
        # more than a pipe holds at once
        blob *= 1 + min(70000, c["times"] * 100) // len(blob)
    data = blob if c["in"] == "binary" else c["text"].encode("utf-8")
    args = ["-m", "hrdc.converter"] + options(c) + ([] if not c["O"] else ["--optimize" if c["long"] else "-O"])
    with Scratch() as s:
        out = s.tool(args, data, c["fin"], c["fout"], "converter")
    got = decode(c["out"], out, "converter")
    if c["times"] > 1:
        l = {"long"}
    elif c["O"]:
        same_meaning(blob, got, "converter -O")
    else:
        require(ref.items_of(got) == ref.items_of(blob), "converter turns %s to %s", blob.hex(), got.hex())
    if c["times"] == 1:
        l = set()
    elif not c["O"]:
        require(ref.items_of(got) == ref.items_of(blob), "converter alters a descriptor of %d bytes", len(blob))
    lib = hr.convert("binary", blob, "binary", optimize=c["O"])
    require(got == lib, "converter gives %s, library gives %s", got.hex(), lib.hex())
    return l | {"in:" + c["in"], "out:" + c["out"], "O" if c["O"] else "plain", "nt"}


@st.composite
def decompilation(draw):
    items = draw(decomp.stream(segments=5))
    fmt = draw(st.sampled_from(FORMATS))
    blob = ref.encode(items)
    text = draw(code_text(blob)) if fmt == "code" else draw(hex_text(blob)) if fmt == "hex" else None
    return {"items": items, "in": fmt, "text": text, "out": draw(st.sampled_from(FORMATS)), "N": draw(st.booleans()),
            "fin": draw(st.booleans()), "fout": draw(st.sampled_from(["", "new", "old"])), "long": draw(st.booleans())}


def check_decompile(c):
    blob = ref.encode(c["items"])
    want = decomp.blob_norm(blob)
    data = blob if c["in"] == "binary" else c["text"].encode("utf-8")
    args = ["-m", "hrdc.descriptor.extractor"]
    if c["in"] != "binary" or c["long"]:
        args += ["--input-format" if c["long"] else "-i", c["in"]]
    with Scratch() as s:
        script = s.tool(args, data, c["fin"], c["fout"], "extractor")
        with open(os.path.join(s.dir, "script.py"), "wb") as f:
            f.write(script)
        args = ["script.py"]
        if c["out"] != "binary" or c["long"]:
            args += ["--output-format" if c["long"] else "-o", c["out"]]
        if c["N"]:
            args.append("--no-optimize" if c["long"] else "-N")
        if c["fout"]:
            args.append("desc.out")
            s.occupy("desc.out", c["fout"])
        p = s.run(args)
        require(p.returncode == 0, "decompiled script fails: %s\n%s", p.stderr.decode()[-400:], script.decode()[:2000])
        out = p.stdout
        if c["fout"]:
            with open(os.path.join(s.dir, "desc.out"), "rb") as f:
                out = f.read()
    got = decode(c["out"], out, "decompiled script")
    d = ref.diff(want, decomp.norm(ref.interpret(got)), "original", "recompiled")
    require(d is None, "extractor, then compile%s: %s; %s -> %s", " -N" if c["N"] else "", d, blob.hex(), got.hex())
    return {"in:" + c["in"], "out:" + c["out"], "N" if c["N"] else "optimized", "nt"}


SCRIPT = """
import json, sys
sys.path.insert(1, %r)
from pbt import hr
from hrdc.descriptor import *
descriptor = hr.build(json.load(open("tree.json")))
if __name__ == "__main__":
    compile_main(descriptor)
"""


@st.composite
def compilation(draw):
    return {"tree": draw(gens.tree(n_max=3)), "out": draw(st.sampled_from(FORMATS)), "N": draw(st.booleans()),
            "fout": draw(st.sampled_from(["", "new", "old"])), "long": draw(st.booleans())}


def check_compile(c):
    with Scratch() as s:
        with open(os.path.join(s.dir, "tree.json"), "w") as f:
            json.dump(c["tree"], f)
        with open(os.path.join(s.dir, "desc.py"), "w") as f:
            f.write(SCRIPT % core.VERIF)
        args = ["desc.py"] + options(c)
        if c["N"]:
            args.append("--no-optimize" if c["long"] else "-N")
        if c["fout"]:
            args.append("desc.out")
            s.occupy("desc.out", c["fout"])
        p = s.run(args)
        require(p.returncode == 0, "compiling fails: %s", p.stderr.decode()[-400:])
        out = p.stdout
        if c["fout"]:
            require(out == b"", "writes to standard output too: %r", out[:100])
            with open(os.path.join(s.dir, "desc.out"), "rb") as f:
                out = f.read()
    got = decode(c["out"], out, "compile_main")
    lib = hr.compile_tree(hr.build_guarded(c["tree"]), not c["N"])
    require(got == lib, "compile_main gives %s, library gives %s", got.hex(), lib.hex())
    d = ref.diff(ref.normal(ref.tree_meaning(c["tree"]), coalesce=True),
                 ref.normal(ref.interpret(got), coalesce=True), "described", "compiled")
    require(d is None, "compile_main: %s", d)
    return {"out:" + c["out"], "N" if c["N"] else "optimized", "nt"}


@st.composite
def bad(draw):
    items = draw(gens.stream(segments=4, widen=False))
    blob = ref.encode(items)
    how = draw(st.sampled_from(["cut", "tag", "format", "long", "output", "nofile", "text", "open"]))
    return {"blob": blob.hex(), "how": how, "tool": draw(st.sampled_from(["hrdc.converter", "hrdc.descriptor.extractor"])),
            "pos": draw(st.integers(0, 200))}


def check_bad(c):
    blob = bytes.fromhex(c["blob"])
    args = ["-m", c["tool"]]
    raws = [r for n, v, w, r in ref.decode(blob)]
    k = c["pos"] % len(raws)
    if c["how"] == "cut":
        ks = [i for i, r in enumerate(raws) if len(r) > 1]
        if not ks:
            return {"nothing"}
        k = ks[c["pos"] % len(ks)]
        blob = b"".join(raws[:k]) + raws[k][:-1]
    elif c["how"] == "tag":
        blob = b"".join(raws[:k]) + b"\xd1\x00" + b"".join(raws[k:])
    elif c["how"] == "long":
        blob = b"".join(raws[:k]) + b"\xfe\x00\xf0" + b"".join(raws[k:])
    elif c["how"] == "output":
        args += ["-o", "nosuch"]            # the extractor has no such option at all
    elif c["how"] == "nofile":
        args += ["nosuch.dat"]
    elif c["how"] == "text":
        toks = ["0x%02x" % b for b in blob]
        k = c["pos"] % len(toks)
        toks[k] = ["0x1" + toks[k][2:], "Usage", toks[k] + " " + toks[k], "0x" + "zz"][c["pos"] // 7 % 4]
        args += ["-i", "code"]
        blob = ", ".join(toks).encode()
    elif c["how"] == "open":
        args = ["-m", "hrdc.descriptor.extractor"]
        blob = [b"\xc0" + blob, b"\xb4" + blob, b"\xa1\x01" + blob][c["pos"] % 3]
    else:
        args += ["-i", "nosuch"]
    with Scratch() as s:
        p = s.run(args, blob)
    require(p.returncode != 0, "%s %s: succeeds on malformed input %s", c["tool"], c["how"], blob.hex())
    return {c["how"], "nt"}


@st.composite
def unwritable(draw):
    tool = draw(st.sampled_from(["converter", "extractor", "compile"]))
    c = {"tool": tool, "out": draw(st.sampled_from(FORMATS)), "opt": draw(st.booleans()),
         "where": draw(st.sampled_from(["full", "stdout", "nodir", "pipe"]))}
    c["src"] = draw(gens.tree(n_max=2)) if tool == "compile" else draw(decomp.stream(segments=4))
    return c


def check_unwritable(c):
    """Output that gets lost is no success"""
    with Scratch() as s:
        data = b""
        if c["tool"] == "compile":
            with open(os.path.join(s.dir, "tree.json"), "w") as f:
                json.dump(c["src"], f)
            with open(os.path.join(s.dir, "desc.py"), "w") as f:
                f.write(SCRIPT % core.VERIF)
            args = ["desc.py", "-o", c["out"]] + ([] if c["opt"] else ["-N"])
            if not hr.compile_tree(hr.build_guarded(c["src"]), c["opt"]):
                return {"empty"}
        elif c["tool"] == "converter":
            args = ["-m", "hrdc.converter", "-o", c["out"]] + (["-O"] if c["opt"] else []) + ["-"]
            data = ref.encode(c["src"])
            if not hr.convert("binary", data, "binary", optimize=c["opt"]):
                return {"empty"}
        else:
            args = ["-m", "hrdc.descriptor.extractor", "-"]
            data = ref.encode(c["src"])
        if c["where"] == "full":
            args.append("/dev/full")
        elif c["where"] == "nodir":
            args.append("nosuch/out.dat")
        if c["where"] == "pipe":
            r, out = os.pipe()
            os.close(r)                         # nobody reads, from the start
        else:
            out = os.open("/dev/full" if c["where"] == "stdout" else os.devnull, os.O_WRONLY)
        try:
            p = subprocess.run([sys.executable, "-B"] + args, input=data, stdout=out, stderr=subprocess.PIPE,
                               cwd=s.dir, env=ENV, timeout=60)
        except subprocess.TimeoutExpired:
            require(False, "%r does not end", args)
        finally:
            os.close(out)
    require(p.returncode != 0, "%s: output (%s) cannot be written (%s), but it ends with status 0", c["tool"], c["out"],
            c["where"])
    return {c["tool"], c["where"], "nt"}


def examples():
    d = os.path.join(core.REPO, "examples")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if f.endswith(".py"):
            for fmt in FORMATS:
                for n in (False, True):
                    yield [f, fmt, n]


def check_example(c):
    """Descriptions shipped as examples run as programs; decompiling them gives the same meaning"""
    name, fmt, n = c
    with Scratch() as s:
        script = os.path.join(core.REPO, "examples", name)
        p = s.run([script, "-o", fmt] + (["-N"] if n else []))
        require(p.returncode == 0 and p.stderr == b"", "%s fails: %s", name, p.stderr.decode()[-400:])
        got = decode(fmt, p.stdout, name)
        q = s.run([script, "-N"])
        same_meaning(q.stdout, got, name)
        back = s.run(["-m", "hrdc.descriptor.extractor"], got)
        require(back.returncode == 0, "decompiling %s fails: %s", name, back.stderr.decode()[-400:])
        with open(os.path.join(s.dir, "back.py"), "wb") as f:
            f.write(back.stdout)
        r = s.run(["back.py"])
        require(r.returncode == 0, "decompiled %s fails: %s", name, r.stderr.decode()[-400:])
    d = ref.diff(decomp.blob_norm(got), decomp.norm(ref.interpret(r.stdout)), "original", "recompiled")
    require(d is None, "%s, decompiled and recompiled: %s", name, d)
    return {"nt"}


PROPERTY = Property(
    "C20",
    "real processes (converter, extractor, decompiled and compiled scripts) with random formats, options, files or "
    "pipes; all are non-trivial",
    [
        Facet("examples", check_example, cases=examples, nontrivial=("nt",)),
        Facet("convert", check_convert, conversion(), examples=320, nontrivial=("nt",), thorough=20),
        Facet("decompile", check_decompile, decompilation(), examples=160, nontrivial=("nt",), thorough=20),
        Facet("compile", check_compile, compilation(), examples=160, nontrivial=("nt",), thorough=20),
        Facet("bad", check_bad, bad(), examples=80, nontrivial=("nt",), thorough=10),
        Facet("unwritable", check_unwritable, unwritable(), examples=100, nontrivial=("nt",), thorough=10),
    ])
