"""C24: simple values mean the same written and read, malformed ones are rejected."""
import math
import random
from decimal import Decimal
from typing import List, Optional
from urllib.parse import urlparse

from lib import core
from lib.core import cps, txt
from lib.texts import outcome

KINDS = ["int", "float", "geo", "bool", "bytes", "uri"]
HEAD = {"probe": [],
        "event": [("UID", "u"), ("DTSTAMP", "20200101T000000Z"), ("DTSTART", "20200101T000000")]}
NAME = {"probe": "X-PROBE", "event": "VEVENT"}
SLOTS = {"probe": [(f"{m}_{k}", k, m == "many") for m in ("one", "many") for k in KINDS],
         "event": [("geo", "geo", False), ("transparent", "bool", False)]}
CLS = {}


def init():
    import attr

    import ics
    from ics.component import Component
    from ics.converter.component import ComponentMeta
    from ics.geo import Geo
    from ics.types import URL

    if CLS:
        return
    types = {"int": int, "float": float, "geo": Geo, "bool": bool, "bytes": bytes, "uri": URL}
    ns = {"NAME": "X-PROBE", "__annotations__": {}}
    for name, kind, many in SLOTS["probe"]:
        ns[name] = attr.ib(factory=list) if many else attr.ib(default=None)
        ns["__annotations__"][name] = (List if many else Optional)[types[kind]]
    Probe = attr.s(type("Probe", (Component,), ns))
    ComponentMeta.BY_TYPE[Probe] = ComponentMeta(Probe)
    CLS.update(probe=Probe, event=ics.Event)


# ------------------------------------------------------------- the encoding

def enc_num(x):
    sign, digits, e = Decimal(repr(x)).as_tuple()
    digits = list(digits)
    while digits and digits[0] == 0:
        digits.pop(0)
    while digits and digits[-1] == 0:
        digits.pop()
        e += 1
    return {"n": bool(sign) and bool(digits), "d": digits, "e": e if digits else 0}


def number(x):
    return type(x) is float and math.isfinite(x)


def enc(kind, x):
    from ics.geo import Geo

    if kind == "int" and type(x) is int:
        d = [int(c) for c in str(abs(x))] if x else []
        return {"int": {"n": x < 0, "d": d}}
    if kind == "float" and number(x):
        return {"float": enc_num(x)}
    if kind == "geo" and isinstance(x, Geo) and all(map(number, x)):
        return {"geo": [enc_num(c) for c in x]}
    if kind == "bool" and type(x) is bool:
        return {"bool": x}
    if kind == "bytes" and isinstance(x, bytes):
        return {"bytes": list(x)}
    if kind == "uri" and hasattr(x, "geturl"):
        return {"uri": cps(x.geturl())}
    return {"odd": repr(x)[:60]}


def dump(carrier, o):
    res = []
    for name, kind, many in SLOTS[carrier]:
        v = getattr(o, name)
        res.append([enc(kind, x) for x in (v if many else [] if v is None else [v])])
    return res


def ics_name(name):
    return name.upper().replace("_", "-")


def container(carrier, lines):
    from ics.contentline import Container, ContentLine

    return Container(NAME[carrier], [ContentLine(n, value=v) for n, v in HEAD[carrier]] +
                     [ContentLine(ics_name(SLOTS[carrier][i][0]), value=t) for i, t in lines])


# ------------------------------------------------------------------- replay

WORDS = {"int": ["0", "-1", "+10", "007", " 5", "12345678901234567890", "1e3", "0x1", "1.0"],
         "float": ["0.0", "-0.0", "1.25", "1e-7", "1E+5", ".5", "5.", "nan", "inf", "-Infinity",
                   "123456.789012345", "0.1000000000000000055", "1_0"],
         "geo": ["0;0", "37.386013;-122.082932", "-0.000001;1e-6", "1;2;3", "nan;1", " 1; 2"],
         "bool": ["TRUE", "FALSE", "true", "False", "YES", "no", "On", "OFF", "T", "f", "y", "N",
                  "1", "0", "TRUEFALSE"],
         "bytes": ["AAAA", "QUI=", "QQ==", "/+9z", "AB==", "Zm9vYmFy", "Zm9vYg==", "AAAA===="],
         "uri": ["http://a.b/c", "mailto:x", "cid:a.b", "urn:x:y", "https://a/b?c#d", "a/b", ""]}
ALPHABET = {"int": "019+- _.e" + "٠" + "²", "float": "015.-+eE _" + "٣",
            "geo": "01.;-" + " e", "bool": "TRUEFAtY1 ", "bytes": "AQz/=_ -", "uri": "a:/.?# "}


def replay(chunk):
    """a list of the same value twice, and the value alone"""
    init()
    bad = []
    for r in chunk:
        kind, t, v = r["kind"], txt(r["t"]), r["r"]
        i = KINDS.index(kind)
        for lines in ([(i, t)], [(i + 6, t)], [(i + 6, t), (i + 6, t)]):
            many = lines[0][0] >= 6
            if many and "," in t:
                continue
            got = outcome(lambda: CLS["probe"].from_container(container("probe", lines)),
                          lambda o: [dump("probe", o)])
            what = ""
            vals = got["res"][0][lines[0][0]] if got["ok"] else []
            if not got["ok"] and got["exc"] != "ValueError":
                what = "reading raised the wrong kind of error"
            elif v["k"] == "bad" and got["ok"]:
                what = "a malformed value was read"
            elif v["k"] in ("ok", "any") and not got["ok"]:
                what = "a well-formed value was rejected"
            elif v["k"] in ("ok", "may") and got["ok"] and vals != [v["v"]] * len(lines):
                what = "a value was read as another"
            if what:
                bad.append({"what": what, "kind": kind, "text": t, "lines": len(lines),
                            "many": many, "expected": v, "seen": got})
    return bad[:20]


# ------------------------------------------------------------ random values

def rnum(rng):
    c = rng.random()
    if c < 0.2:
        return float(rng.randrange(-1000, 1000))
    if c < 0.5:
        return round(rng.uniform(-200, 200), rng.randrange(0, 9))
    if c < 0.65:
        return rng.uniform(-180, 180)
    if c < 0.8:
        return rng.choice([1, -1]) * rng.randrange(1, 10 ** rng.randrange(1, 16)) * \
            10.0 ** rng.randrange(-30, 30)
    if c < 0.9:
        return rng.choice([1, -1]) * rng.random() * 10.0 ** rng.randrange(-150, 150)
    return rng.choice([0.0, -0.0, 1e15, 1e16, 1e22, 1e23, 0.1, 1e-4, 1e-5, 1e-7, 0.0000005,
                       1.0000005, 999.9999999, 2.0 ** 53, 123456789.125])


def rvalue(rng, kind):
    from ics.geo import Geo

    if kind == "int":
        return rng.choice([1, -1]) * rng.randrange(10 ** rng.choice([1, 1, 2, 3, 9, 10, 19, 40]))
    if kind == "float":
        return rnum(rng) if rng.random() < 0.97 else rng.choice([math.nan, math.inf, -math.inf])
    if kind == "geo":
        g = [rnum(rng), rnum(rng)]
        if rng.random() < 0.03:
            g[rng.randrange(2)] = rng.choice([math.nan, math.inf])
        return Geo(*g)
    if kind == "bool":
        return rng.random() < 0.5
    if kind == "bytes":
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 30, 57, 58, 100])))
    return urlparse(ruri(rng))


def ruri(rng):
    part = lambda: "".join(rng.choice("abcxyzABZ019.-_~%2") for _ in range(rng.randrange(1, 8)))
    if rng.random() < 0.1:
        return rng.choice(WORDS["uri"])
    s = rng.choice(["http", "https", "mailto", "cid", "urn", "ftp", "data"]) + ":"
    s += rng.choice(["//", "//", ""]) + part() + "".join("/" + part() for _ in range(rng.randrange(3)))
    if rng.random() < 0.2:
        s += ","
    if rng.random() < 0.3:
        s += rng.choice("?#") + part()
    return s


def digits(rng, x):
    t = format(Decimal(repr(x)), "f") if isinstance(x, float) else str(x)
    if "." in t and rng.random() < 0.3:
        t += "0" * rng.randrange(1, 4)
    sign, t = (t[0], t[1:]) if t[0] == "-" else ("", t)
    if rng.random() < 0.3:
        t = "0" * rng.randrange(1, 4) + t
    if not sign and rng.random() < 0.3:
        sign = "+"
    return sign + t


def rtext(rng, kind, broken):
    import base64

    x = rvalue(rng, kind)
    if kind == "int":
        t = digits(rng, x)
    elif kind == "float":
        t = digits(rng, x) if math.isfinite(x) else repr(x)
        if rng.random() < 0.1:
            t = repr(x)
    elif kind == "geo":
        t = ";".join(digits(rng, c) if math.isfinite(c) else repr(c) for c in x)
    elif kind == "bool":
        t = rng.choice(["TRUE", "FALSE", "true", "False"]) if rng.random() < 0.8 else \
            rng.choice(WORDS["bool"])
    elif kind == "bytes":
        t = base64.b64encode(x).decode()
    else:
        t = ruri(rng)
    if broken:
        k = rng.randrange(len(t) + 1)
        c = rng.choice(ALPHABET[kind] + "0;é٣")
        t = rng.choice([t[:k] + c + t[k:], t[:k] + c + t[k + 1:], t[:k] + t[k + 1:]])
    return t


def session(args):
    from ics.contentline import string_to_containers

    seed, n = args
    rng = random.Random(seed)
    carrier = rng.choice(["probe", "probe", "probe", "event"])
    slots = SLOTS[carrier]
    T = CLS[carrier]
    o, steps, out = None, [], None
    free = set(range(len(slots)))
    for _ in range(n):
        op = rng.choice(["read", "set", "write", "write"]) if o is not None else "read"
        if op == "read":
            lines = []
            broken = rng.random() < 0.3
            for _ in range(rng.choice([0, 1, 2, 4])):
                i = rng.randrange(len(slots))
                _, kind, many = slots[i]
                if not many and any(j == i for j, _ in lines) and rng.random() < 0.9:
                    continue
                k = rng.choice([1, 1, 2, 3] if rng.random() < 0.96 else [9, 20, 40]) \
                    if many and kind != "uri" else 1
                lines.append((i, ",".join(rtext(rng, kind, broken and rng.random() < 0.5)
                                          for _ in range(k))))
            got = outcome(lambda: T.from_container(container(carrier, lines)), lambda x: [x])
            step = {"op": "read", "lines": [{"s": i + 1, "t": cps(t)} for i, t in lines],
                    "ok": got["ok"], "exc": got["exc"], "vals": []}
            if got["ok"]:
                o = got["res"][0]
                step["vals"] = dump(carrier, o)
        elif op == "set":
            i = rng.randrange(len(slots))
            name, kind, many = slots[i]
            if many:
                v = [rvalue(rng, kind) for _ in range(
                    rng.randrange(4) if rng.random() < 0.94 else rng.choice([9, 20, 40]))]
            else:
                v = None if rng.random() < 0.1 else rvalue(rng, kind)
            setattr(o, name, v)
            o.extra_params.clear()
            step = {"op": "set", "s": i + 1,
                    "vals": [enc(kind, x) for x in (v if many else [] if v is None else [v])]}
        else:
            got = outcome(lambda: list(string_to_containers(o.serialize())))
            step = {"op": "write", "ok": got["ok"], "exc": got["exc"], "lines": []}
            if got["ok"]:
                names = [ics_name(s[0]) for s in slots]
                step["lines"] = [{"s": names.index(l.name) + 1, "t": cps(l.value)}
                                 for l in got["res"][0] if l.name in names]
                steps.append(step)
                again = outcome(lambda: T.from_container(got["res"][0]), lambda x: [x])
                step = {"op": "again", "ok": again["ok"], "exc": again["exc"], "vals": []}
                if again["ok"]:
                    o = again["res"][0]
                    step["vals"] = dump(carrier, o)
        steps.append(step)
    return {"slots": [{"kind": k, "many": m} for _, k, m in slots], "steps": steps}


def sessions(chunk):
    init()
    return [session(a) for a in chunk]


def run(ctx):
    init()
    more = ctx.pick(0, 1)
    header = {"budget": {"int": 3 + more, "float": 3 + more, "geo": 4 + more, "bool": 3 + more,
                         "bytes": 4 + more, "uri": 3 + more},
              "words": {k: [cps(w) for w in v] for k, v in WORDS.items()},
              "alphabet": {k: cps(v) for k, v in ALPHABET.items()}}
    rs = ctx.explore("MC_Simple", "", ["Report", "RoundTrip", "StrictIsRead", "SelfNear"],
                     header=header, extra="VIEW View")
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch(f"{b['what']} ({b['kind']})", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), n) for n in [4, 10, 20] for _ in range(ctx.pick(700, 4000))]
    ctx.rng.shuffle(jobs)
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("SimpleTrace", logs)
    ctx.assumptions += [
        "numbers of more than fifteen significant digits need only be read; what is written for "
        "them must be read as the same number",
        "coordinates are written to six decimal places"]
