"""Reading of `code` listings: bytes and what the comments say"""
import json
import os
import re

from . import ref

TABLE = json.load(open(os.path.join(os.path.dirname(__file__), "usages.json")))
PAGES = {0x90: "camera", 0xc: "consumer", 1: "desktop", 6: "device", 0xd: "digitizers", 5: "game",
         7: "keyboard", 8: "led", 0x59: "lighting", 0xf: "pid", 0x20: "sensors", 2: "simulation",
         0xb: "telephony", 3: "vr", 9: "button", 0xa: "ordinal"}
PAGE_ALIAS = {0x1: "GenericDesktop", 0x2: "Simulation", 0x3: "VR", 0x5: "Game", 0x6: "Device",
              0x7: "Keyboard", 0x8: "Led", 0x9: "Button", 0xa: "Ordinal", 0xb: "TelephonyDevice",
              0xc: "Consumer", 0xd: "Digitizers", 0xf: "PID", 0x20: "Sensors", 0x59: "Lighting",
              0x90: "Camera", 0xff00: "Arcade"}
BY_VALUE = {v[0]: "%s.%s" % (m, k) for m, t in TABLE.items() for k, v in t.items()}
BY_NAME = {v: k for k, v in BY_VALUE.items()}
for _n in range(128):
    for _b, _f in ((0x90000, "button.Button(%d)"), (0xa0000, "ordinal.Ordinal(%d)")):
        BY_VALUE[_b + _n] = _f % _n
        BY_NAME[_f % _n] = _b + _n
KINDS = ["Physical", "Application", "Logical", "Report", "NamedArray", "UsageSwitch", "UsageModifier"]
FLAGS = {"Constant": 1, "Variable": 2, "Relative": 4, "Wrap": 8, "NonLinear": 16, "NoPreferred": 32,
         "NullState": 64, "Volatile": 128, "BufferedBytes": 256,
         "Data": 0, "Array": 0, "Absolute": 0, "NoWrap": 0, "Linear": 0, "PreferredState": 0,
         "NoNullPosition": 0, "NonVolatile": 0, "BitField": 0}
UNITS = {"SILinear": 1, "SIRotation": 2, "EnglishLinear": 3, "EnglishRotation": 4,
         "Centimeter": 0x11, "Radian": 0x12, "Inch": 0x13, "Degree": 0x14, "Gram": 0x101,
         "Slug": 0x103, "Second": 0x1000, "Kelvin": 0x10001, "Fahrenheit": 0x10003,
         "Ampere": 0x100000, "Candela": 0x1000000, "CmPerSec": 0xf011, "Momentum": 0xf111,
         "G": 0xe011, "Newton": 0xe111, "Joule": 0xe121, "Volt": 0xf0d121}


def c_bytes(text):
    """What a C compiler would make of the listing as an array initializer"""
    out = re.sub(r"//[^\n]*", "", text)
    out = re.sub(r"/\*.*?\*/", " ", out, flags=re.S)
    toks = [t.strip() for t in out.split(",")]
    if toks and toks[-1] == "":
        toks.pop()
    vals = []
    for t in toks:
        if not re.fullmatch(r"0[xX][0-9a-fA-F]{1,2}", t):
            raise ValueError("not a byte literal: %r" % t)
        vals.append(int(t, 16))
    return bytes(vals)


def number(text):
    try:
        return int(text, 0)
    except ValueError:
        return None


def means_usage(text, value, page):
    """Does `text` designate the usage?  page: current page, value: item value"""
    ids = {value} | ({page << 16 | value} if value < 65536 else set())
    full = value if value >= 65536 else page << 16 | value
    n = number(text)
    if n is not None:
        return full not in BY_VALUE and (n in ids or n == full & 0xffff)
    for cand in (text, "%s.%s" % (PAGES.get(full >> 16), text)):
        if cand in BY_NAME and BY_NAME[cand] == full:
            return True
    if full in BY_VALUE:
        return False
    # constants or functions unknown to our table (added since)
    from . import hr
    for cand in (text, "%s.%s" % (PAGES.get(full >> 16), text)):
        try:
            if int(eval(cand, dict(vars(hr.usage)))) == full:
                return True
        except Exception:
            pass
    return False


def means_page(text, value):
    n = number(text)
    if n is not None:
        return n == value and value not in PAGE_ALIAS
    return text in (PAGES.get(value), PAGE_ALIAS.get(value))


def means_flags(text, value):
    n = number(text)
    if n is not None:
        return n == value and value not in FLAGS.values()
    parts = text.split("|")
    if any(p not in FLAGS for p in parts):
        return False
    return sum({p: FLAGS[p] for p in parts}.values()) == value & 0x1ff


def means_unit(text, value):
    n = number(text)
    return n == value if n is not None else text in UNITS and UNITS[text] in (value, value & ~1)


def means_kind(text, value):
    n = number(text)
    return n == value and value >= len(KINDS) if n is not None else text in KINDS and KINDS.index(text) == value


LINE = re.compile(r"^\s*((?:0x[0-9a-f]{2},\s*)+)// ( *)(\w+)(?: \((.*)\))?$")


def problems(text, blob):
    """Check a listing against the bytes it stands for; -> None or message"""
    lines = text.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    items = ref.decode(blob)
    if len(lines) != len(items):
        return "%d lines for %d items" % (len(lines), len(items))
    depth = page = 0
    stack = []
    for line, (name, value, width, raw) in zip(lines, items):
        m = LINE.match(line)
        if not m:
            return "line %r is not `bytes // item`" % line
        if bytes(int(x, 16) for x in re.findall(r"0x(..)", m.group(1))) != raw:
            return "line %r: bytes should be %s" % (line, raw.hex())
        if name == "EndCollection":
            depth -= 1
        if len(m.group(2)) != 4 * max(depth, 0):
            return "line %r: indented for depth %s, nesting is %d" % (line, len(m.group(2)) / 4, depth)
        if name == "Collection":
            depth += 1
        if m.group(3) != name:
            return "line %r: item is %s" % (line, name)
        arg = m.group(4)
        if name == "UsagePage":
            page = value
        elif name == "Push":
            stack.append(page)
        elif name == "Pop" and stack:
            page = stack.pop()
        if arg is None:
            if value != 0:
                return "line %r: lacks value %d" % (line, value)
            continue
        if name in ref.NOVALUE:
            ok = number(arg) == 0
        elif name in ref.USAGES:
            ok = means_usage(arg, value, page)
        elif name == "UsagePage":
            ok = means_page(arg, value)
        elif name in ref.DATA:
            ok = means_flags(arg, value)
        elif name == "Unit":
            ok = means_unit(arg, value)
        elif name == "Collection":
            ok = means_kind(arg, value)
        else:
            ok = number(arg) == value
        if not ok:
            return "line %r does not tell %s %d (usage page %d)" % (line, name, value, page)
    return None
