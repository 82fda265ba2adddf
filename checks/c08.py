"""C08: folding and unfolding."""
import random

from checks.c07 import rand_line, rtext
from lib import core
from lib.core import cps, txt
from lib.texts import consts, dec_line, enc_items, outcome, parse_lines, parse_text

# a colon alone is a well-formed content line
ALPHA = [58, 32, 9, 13, 10]


def replay(chunk):
    bad = []
    for r in chunk:
        t = txt(r["t"])
        got = outcome(lambda: enc_items(parse_text(t)))
        if got["ok"] != r["r"]["ok"] or (got["ok"] and got["res"] != r["r"]["v"]) or \
                got["exc"] not in ("", "ParseError"):
            bad.append({"text": t, "expected": r["r"], "got": got})
    return bad[:20]


class Leave(Exception):
    pass


VALUES = "ab- \t;,\u00e9\u2028\x85\u2014\U0001f600/" + "  ---word" + "\x0b\x0c\x1c\u00a0"


def session(args):
    from ics.contentline import Container
    from ics.contentline.container import contentline_set_wrap

    seed, n = args
    rng = random.Random(seed)
    steps = []

    def value():
        if rng.random() < 0.3:
            return rtext(rng, " -\ta", (1, 20, 75, 76, 80, 151, 300))
        return rtext(rng, VALUES, (0, 10, 60, 70, 74, 75, 80, 150, 230))

    def fold():
        l = rand_line(rng, newline=False)
        l["value"] = cps(value())
        if rng.random() < 0.5:
            l["params"] = []
        cl = dec_line(l)
        t = cl.serialize(wrap=None)
        way = rng.randrange(4)

        def go():
            if way == 0:
                return cl.serialize()
            if way == 1:
                return "".join(cl.serialize_iter())
            if way == 2:
                out = "".join(cl.serialize_iter(newline=True))
                assert out.endswith("\r\n")
                return out[:-2]
            out = Container("X", [cl]).serialize(newline=bool(way & 1))
            out = out[:-2] if out.endswith("\r\n") else out
            assert out.startswith("BEGIN:X\r\n") and out.endswith("\r\nEND:X")
            return out[len("BEGIN:X\r\n"):-len("\r\nEND:X")]

        o = outcome(lambda: cps(go()))
        steps.append({"op": "fold", "t": cps(t), **o})

    def block(depth):
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.5 or depth > 4:
                fold()
            else:
                w = rng.choice([2, 3, 5, 8, 20, 74, 75, 76, 100, 0, None, 10, -1, 1000])
                steps.append({"op": "enter", "w": w if w and w > 0 else 0})
                end = rng.random()
                try:
                    with contentline_set_wrap(w):
                        block(depth + 1)
                        if end < 0.3:
                            raise Leave()
                        if end < 0.5:
                            dec_line({"name": [65], "params": [], "value": [58]})["missing"]
                except (Leave, KeyError):
                    pass
                steps.append({"op": "leave"})
                if rng.random() < 0.7:
                    fold()

    def phys():
        """folded text with odd line ends, blank lines and stray continuations"""
        lines = []
        for _ in range(rng.choice([1, 2, 3])):
            t = rtext(rng, "AB", (1, 2)) + ":" + rtext(rng, VALUES.replace("\x1c", ""), (0, 5, 20))
            cuts = sorted(rng.sample(range(1, len(t)), min(len(t) - 1, rng.choice([0, 1, 3]))))
            parts = [t[i:j] for i, j in zip([0] + cuts, cuts + [len(t)])]
            lines += [parts[0]] + [rng.choice(" \t") + p for p in parts[1:]]
        if rng.random() < 0.15:
            lines.insert(rng.randrange(len(lines) + 1), rng.choice([" x:y", "\t", " "]))
        return lines

    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            block(0)
        else:
            ls = phys()
            if r < 0.8:
                e = rng.choice(["\r\n", "\n", "\r", None])
                t = ""
                for x in ls:
                    t += x + (e or rng.choice(["\r\n", "\n", "\r"]))
                    if rng.random() < 0.1:
                        t += rng.choice(["\n", "\r\n", "\r"])
                if rng.random() < 0.5:
                    t = t.rstrip("\r\n")
                steps.append({"op": "text", "v": cps(t), **outcome(
                    lambda: enc_items(parse_text(t)))})
            else:
                ls = [x + rng.choice(["", "\n", "\r\n", "\r", "\n\n"]) for x in ls]
                if rng.random() < 0.2:
                    ls.insert(rng.randrange(len(ls) + 1), rng.choice(["", "\n", "\r\n"]))
                if rng.random() < 0.1:
                    ls.insert(rng.randrange(len(ls) + 1), rng.choice(["A:b\nC:d", "A:\rx", "A:b\r\n c"]))
                it = rng.random()
                steps.append({"op": "lines", "v": [cps(x) for x in ls], **outcome(
                    lambda: enc_items(parse_lines(ls if it < 0.5 else iter(ls))))})
    return {"width": 75, "steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    rs = ctx.explore("MC_Text", consts("text", ALPHA, ctx.pick(6, 7)),
                     ["ReportText", "FoldRoundTrip"])
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch("the code does not unfold a text as the model does", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), ctx.rng.choice([2, 5, 8])) for _ in range(ctx.pick(500, 6000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("TextTrace", logs)
    ctx.assumptions += ["a width of 1 leaves no room for a continuation and counts as 2"]
