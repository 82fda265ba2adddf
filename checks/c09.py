"""C09: BEGIN/END nesting."""
import random

from checks.c07 import rand_line, rtext
from lib import core
from lib.core import cps, txt
from lib.texts import (consts, dec_item, dec_line, enc_items, outcome, parse_lines,
                       parse_text)


def replay(chunk):
    from ics.contentline import Parser

    bad = []
    for r in chunk:
        ls = [txt(l["name"]) + ":" + txt(l["value"]) for l in r["ls"]]
        for way in range(3):
            if way == 0:
                fn = lambda: parse_text("\r\n".join(ls))
            elif way == 1:
                fn = lambda: parse_lines(ls)
            else:
                fn = lambda: list(Parser.contentlines_to_containers(
                    [dec_line(l) for l in r["ls"]]))
            got = outcome(lambda: enc_items(fn()))
            if got["ok"] != r["r"]["ok"] or (got["ok"] and got["res"] != r["r"]["v"]) or \
                    got["exc"] not in ("", "ParseError", "ValueError"):
                bad.append({"lines": ls, "expected": r["r"], "got": got})
    return bad[:20]


NAMES = ["VCALENDAR", "VEVENT", "X", "A-B", "VALARM", "X"]


def rand_tree(rng, depth=0):
    if depth > 5 or rng.random() < (0.35 if depth else 0.1):
        return {"t": "line", "l": rand_line(rng, newline=False)}
    n = rng.choice([0, 1, 2, 2, 3]) if depth else rng.choice([0, 1, 2, 4])
    return {"t": "comp", "name": cps(rng.choice(NAMES)),
            "items": [rand_tree(rng, depth + 1) for _ in range(n)]}


def deep(n):
    x = {"t": "line", "l": {"name": cps("X"), "params": [], "value": []}}
    for _ in range(n):
        x = {"t": "comp", "name": cps("A"), "items": [x]}
    return x


def case(rng, s):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in s)


def rand_lines(rng):
    """mostly well-nested lines"""
    ls, st = [], []
    for _ in range(rng.randrange(14)):
        r = rng.random()
        if r < 0.35:
            n = rng.choice(NAMES)
            st.append(n)
            ls.append(case(rng, "BEGIN") + ":" + (case(rng, n) if rng.random() < 0.3 else n))
        elif r < 0.65 and st:
            n = st.pop()
            ls.append("END:" + (case(rng, n) if rng.random() < 0.3 else n))
        else:
            ls.append(rtext(rng, "XYz", (1, 3)) + ":" + rtext(rng, "ab :;,-", (0, 3, 9)))
    ls += ["END:" + n for n in reversed(st)]
    if ls and rng.random() < 0.3:
        k = rng.random()
        i = rng.randrange(len(ls))
        if k < 0.4:
            del ls[i]
        elif k < 0.7:
            ls.insert(i, rng.choice(["END:X", "BEGIN:X", "END:VEVENT", "BEGIN:", "END:", "END:VEVENTS"]))
        else:
            j = rng.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
    return ls


def session(args):
    seed, n = args
    rng = random.Random(seed)
    steps = []
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            ls = rand_lines(rng)
            steps.append({"op": "lines", "v": [cps(x) for x in ls],
                          **outcome(lambda: enc_items(parse_lines(ls)))})
        elif r < 0.5:
            t = rng.choice(["\r\n", "\n"]).join(rand_lines(rng))
            steps.append({"op": "text", "v": cps(t),
                          **outcome(lambda: enc_items(parse_text(t)))})
        else:
            items = [rand_tree(rng) for _ in range(rng.choice([1, 1, 2]))]
            items = [x for x in items if x["t"] == "comp"]
            if rng.random() < 0.02:
                items = [deep(rng.choice([20, 40]))]
            cs = [dec_item(x) for x in items]
            way = rng.randrange(2)
            o = outcome(lambda: "".join(
                c.serialize(newline=True) if way else "".join(c.serialize_iter(newline=True))
                for c in cs))
            rec = {"op": "tree", "items": items, "ok": o["ok"], "exc": o["exc"],
                   "out": [], "back": {"ok": False, "res": []}, "eq": False}
            if o["ok"]:
                rec["out"] = cps(o["res"])
                b = outcome(lambda: parse_text(o["res"]))
                if b["ok"]:
                    rec["eq"] = bool(b["res"] == cs)
                    b["res"] = enc_items(b["res"])
                rec["back"] = b
            steps.append(rec)
    return {"width": 75, "steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    rs = ctx.explore("MC_Text", consts("nest", [65], ctx.pick(4, 5)),
                     ["ReportNest", "NestRoundTrip", "NestKeepsEverything"])
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch("the code does not nest lines as the model does", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 10) for _ in range(ctx.pick(500, 3000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("TextTrace", logs)
    ctx.assumptions += ["component and property names are ASCII"]
