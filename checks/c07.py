"""C07: content lines."""
import random
import re

from lib import core, texts
from lib.core import cps, txt
from lib.texts import WIDE, consts, dec_line, enc_line, outcome, parse_line

ALPHA = [65, 59, 61, 44, 34, 58, 94, 110, 39]


def write(cl, way):
    if way == 0:
        return cl.serialize(wrap=None)
    if way == 1:
        return "".join(cl.serialize_iter(wrap=None))
    out = cl.serialize(newline=True, wrap=None)
    return out[:-2] if out.endswith("\r\n") else out


def replay(chunk):
    bad = []
    for r in chunk:
        t = txt(r["t"])
        got = outcome(lambda: enc_line(parse_line(t)))
        if got["ok"] != r["r"]["ok"] or (got["ok"] and got["res"] != r["r"]["v"]) or \
                got["exc"] not in ("", "ParseError"):
            bad.append({"what": "parse", "text": t, "expected": r["r"], "got": got})
        elif got["ok"]:
            cl = dec_line(got["res"])
            back = outcome(lambda: parse_line(write(cl, 0)) == cl)
            if back["res"] is not True:
                bad.append({"what": "write", "text": t, "written": outcome(
                    lambda: write(cl, 0)), "got": back})
    return bad[:20]


VCH = "ab;,:\"^'=n\\ \t-/" + "\u00e9\u2028\x85\U0001f600"
PCH = VCH + ";:,\"^" * 2


def rtext(rng, chars, ns=(0, 1, 2, 4, 9)):
    return "".join(rng.choice(chars) for _ in range(rng.choice(ns)))


def rand_line(rng, newline=True, names="ABX-1"):
    """an arbitrary content line, encoded"""
    params = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        n = rtext(rng, "ABab-1x", (1, 2, 4))
        if any(p["n"] == cps(n) for p in params):
            continue
        vals = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            v = rtext(rng, PCH + ("\n" if newline else ""))
            vals.append({"q": rng.random() < 0.3, "v": cps(v)})
        params.append({"n": cps(n), "vals": vals})
    name = rtext(rng, names, (1, 3, 6)).upper()
    if name in ("BEGIN", "END"):
        name = "X"
    return {"name": cps(name), "params": params,
            "value": cps(rtext(rng, VCH, (0, 1, 3, 10, 30)))}


def rand_raw(rng):
    """the text of a line, often malformed"""
    def val():
        k = rng.random()
        if k < 0.4:
            return rtext(rng, "ab\u00e9 =-'^^^n'" if rng.random() < 0.3 else "ab\u00e9 =-")
        if k < 0.8:
            return '"' + rtext(rng, "ab:;, =" + ("^n^^^'" if rng.random() < 0.3 else "")) + '"'
        return rtext(rng, "ab^'n\"")

    t = rtext(rng, "aBx-", (0, 1, 3, 5))
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        t += ";" + rtext(rng, "PQrs-", (0, 1, 1, 2)) + "=" + ",".join(
            val() for _ in range(rng.choice([1, 1, 2, 3])))
    t += ":" + rtext(rng, VCH, (0, 1, 5, 12))
    if rng.random() < 0.3:
        p = rng.randrange(len(t))
        t = t[:p] + rng.choice(["", '"', ";", ":", ",", "=", "^", "^n", "^'", "^x"]) + \
            t[p + rng.randrange(2):]
    if not re.split("[:;]", t)[0].isascii():     # names are ASCII
        return rand_raw(rng)
    return t


def session(args):
    seed, n = args
    rng = random.Random(seed)
    steps = []
    for _ in range(n):
        if rng.random() < 0.5:
            t = rand_raw(rng)
            steps.append({"op": "parse", "v": cps(t),
                          **outcome(lambda: enc_line(parse_line(t)))})
        else:
            l = rand_line(rng)
            cl = dec_line(l)
            way = rng.randrange(3)
            o = outcome(lambda: write(cl, way))
            rec = {"op": "write", "l": l, "ok": o["ok"], "exc": o["exc"], "out": [],
                   "back": {"ok": False, "res": []}, "eq": False}
            if o["ok"]:
                rec["out"] = cps(o["res"])
                b = outcome(lambda: parse_line(o["res"]))
                if b["ok"]:
                    rec["eq"] = bool(b["res"] == cl)
                    b["res"] = enc_line(b["res"])
                rec["back"] = b
            steps.append(rec)
    return {"width": 75, "steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    rs = ctx.explore("MC_Text", consts("text", ALPHA, ctx.pick(4, 5), "ParamFrames"),
                     ["ReportLine", "WriteRoundTrip", "ParsedIsSane"])
    rs += ctx.explore("MC_Text", consts("text", [c for c in WIDE if c < 128], ctx.pick(1, 2),
                                        "LineFrames"),
                      ["ReportLine", "WriteRoundTrip", "ParsedIsSane"])
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch(f"the code does not {b['what']} a content line as the model does", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 20) for _ in range(ctx.pick(600, 10000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("TextTrace", logs)
    ctx.assumptions += ["component and property names are ASCII"]
