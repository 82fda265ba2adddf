"""C11: TEXT values and comma lists."""
import random

from lib import core
from lib.core import cps, txt
from lib.texts import WIDE, consts, outcome

ALPHA = [92, 59, 44, 10, 13, 110, 78, 114, 82, 97]


def conv():
    from ics.valuetype.text import TextConverter

    return TextConverter


def escape(t, way=0):
    c = conv()
    return c.serialize(t) if way else c.escape_text(t)


def unescape(t, way=0):
    c = conv()
    return c.parse(t) if way else c.unescape_text(t)


def replay_value(chunk):
    c = conv()
    bad = []
    for r in chunk:
        t = txt(r["t"])
        for way in (0, 1):
            got = outcome(lambda: cps(escape(t, way)))
            if got["res"] != r["esc"]:
                bad.append({"what": "escape", "text": t, "expected": txt(r["esc"]), "got": got})
            got = outcome(lambda: cps(unescape(t, way)))
            if got["ok"] != r["un"]["ok"] or got["res"] != r["un"]["v"] or \
                    got["exc"] not in ("", "ValueError"):
                bad.append({"what": "unescape", "text": t, "expected": r["un"], "got": got})
        got = outcome(lambda: [cps(c.parse(x)) for x in c.split_value_list(t)])
        if got["ok"] != r["vals"]["ok"] or (got["ok"] and got["res"] != r["vals"]["v"]) or \
                got["exc"] not in ("", "ValueError"):
            bad.append({"what": "decode a list", "text": t, "expected": r["vals"], "got": got})
    return bad[:20]


def replay_list(chunk):
    c = conv()
    bad = []
    for r in chunk:
        vs = [txt(v) for v in r["vs"]]
        got = outcome(lambda: cps(c.join_value_list([c.serialize(v) for v in vs])))
        if got["res"] != r["join"]:
            bad.append({"what": "join", "values": vs, "expected": txt(r["join"]), "got": got})
        got = outcome(lambda: [c.parse(x) for x in c.split_value_list(txt(r["join"]))])
        if got["res"] != vs:
            bad.append({"what": "split", "values": vs, "got": got})
    return bad[:20]


CHARS = "\\;,\n\r" * 4 + "nNrRabc \t:\"^'" + "\x85\u2028\x0b\x0c\x00\u00fc\U0001f600\ufeff"


def rand_text(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 9, 20, 60]) if n is None else n
    return "".join(rng.choice(CHARS) for _ in range(n))


def session(args):
    seed, n = args
    rng = random.Random(seed)
    c = conv()
    steps = []
    for _ in range(n):
        r = rng.random()
        way = rng.randrange(2)
        t = rand_text(rng)
        if r < 0.25:
            steps.append({"op": "escape", "v": cps(t), **outcome(lambda: cps(escape(t, way)))})
        elif r < 0.6:
            if rng.random() < 0.6:
                t = "".join(rng.choice(["\\\\", "\\;", "\\,", "\\n", "\\N", "\\r", "\\R", "a", "xy"])
                            for _ in range(rng.randrange(8)))
                if rng.random() < 0.4:
                    p = rng.randrange(len(t) + 1)
                    t = t[:p] + rng.choice(["\\", ";", ",", "\n", "\\x", "\\\\", "\\t", "\r"]) + t[p:]
            steps.append({"op": "unescape", "v": cps(t), **outcome(lambda: cps(unescape(t, way)))})
        elif r < 0.75:
            steps.append({"op": "decode", "v": cps(t), **outcome(
                lambda: [cps(c.parse(x)) for x in c.split_value_list(t)])})
        else:
            vs = [rand_text(rng, rng.choice([0, 1, 2, 5])) for _ in range(rng.choice([1, 2, 3, 6]))]
            if r < 0.85:
                es = [c.serialize(v) for v in vs]
                steps.append({"op": "join", "v": [cps(e) for e in es],
                              **outcome(lambda: cps(c.join_value_list(iter(es))))})
            else:
                steps.append({"op": "values", "v": [cps(v) for v in vs], **outcome(
                    lambda: [cps(c.parse(x)) for x in c.split_value_list(
                        c.join_value_list([c.serialize(v) for v in vs]))])})
    return {"width": 75, "steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    k = ctx.pick(4, 5)
    rs = ctx.explore("MC_Text", consts("text", ALPHA, k),
                     ["ReportValue", "EscapeRoundTrip", "UnescapeInverse"])
    rs += ctx.explore("MC_Text", consts("text", WIDE + [10, 13], ctx.pick(1, 2), "ValueFrames"),
                      ["ReportValue", "EscapeRoundTrip", "UnescapeInverse"])
    for b in core.parallel(replay_value, core.split(rs)):
        ctx.mismatch(f"the code does not {b['what']} a text as the model does", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    rs = ctx.explore("MC_Text", consts("list", [92, 44, 10, 110], ctx.pick(6, 8)),
                     ["ReportList", "ListRoundTrip"])
    for b in core.parallel(replay_list, core.split(rs)):
        ctx.mismatch(f"the code does not {b['what']} a list as the model does", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 20) for _ in range(ctx.pick(500, 10000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("TextTrace", logs)
