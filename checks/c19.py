"""C19: reading does not depend on how the text is supplied."""
import copy
import hashlib
import io
import json
import random
import re

from checks import c13, c14
from lib import compgen as gen
from lib import comps, core
from lib.core import cps, txt
from lib.texts import outcome

BASES = [
    "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:p\r\nEND:VCALENDAR",
    "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//a//b\r\nBEGIN:VEVENT\r\nUID:u\r\n"
    "DTSTAMP:20200101T000000Z\r\nSUMMARY;X-P=\"a;b\",c:x\\, y z\r\nX-A: lead\r\n"
    "BEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER:-PT5M\r\nDESCRIPTION:d\\nd\r\nEND:VALARM\r\n"
    "END:VEVENT\r\nBEGIN:X-Y\r\nA:b\r\nEND:X-Y\r\nEND:VCALENDAR\r\n",
]


def ident(cal):
    return hashlib.md5((json.dumps(comps.enc(cal), sort_keys=True, default=str)
                        + cal.serialize()).encode("utf-8", "surrogatepass")).hexdigest()


def phys(t):
    """the lines of a text, with their ends"""
    return re.findall("[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+\\Z", t)


def supplies(t):
    """forms of one text: (form, pieces, what to pass)"""
    bare = re.split("\r\n|\r|\n", t)
    ends = phys(t)
    return [("string", [t], lambda: t),
            ("lines", bare, lambda: list(bare)),
            ("lines", bare, lambda: (x for x in bare)),
            ("lines", bare, lambda: tuple(bare)),
            ("lines", ends, lambda: list(ends)),
            ("lines", ends, lambda: iter(ends)),
            ("lines", ends, lambda: io.StringIO(t, newline="")),
            ("lines", [x.rstrip("\r\n") + "\n" for x in bare],
             lambda: [x.rstrip("\r\n") + "\n" for x in bare])]


def make(what):
    import ics

    with ics.event.deterministic_event_data("gen", c13.gen_stamp()):
        cal = ics.Calendar(what())
        return cal, ident(cal)


def replay(chunk):
    comps.init()
    base = {}
    bad = []
    for i, r in enumerate(chunk):
        if r["b"] not in base:
            base[r["b"]] = make(lambda: BASES[r["b"] - 1])
        t = txt(r["t"])
        sup = supplies(t)
        for k in {0, i % len(sup), (i // 3) % len(sup)}:
            got = outcome(lambda: make(sup[k][2]))
            what = ("a rewritten text is rejected" if not got["ok"] else
                    "a rewritten text is another calendar"
                    if got["res"][1] != base[r["b"]][1] or got["res"][0] != base[r["b"]][0] else "")
            if what:
                bad.append({"what": what, "form": k, "text": t, "exc": got["exc"]})
    return bad[:10]


# ------------------------------------------------------------------ sessions

ENDS = ["\r\n", "\n", "\r"]


def rewrite(rng, lines, name_case=True):
    """a text with the same meaning: lines in random case, folded, spaced"""
    style = rng.random()
    one = rng.choice(ENDS)

    def end():
        return rng.choice(ENDS) if style < 0.3 else one

    dens = rng.choice([0, 0, 0.01, 0.05, 0.3])
    out = ""
    blank = rng.choice([0, 0, 0.1, 0.5])
    case = rng.choice(["keep", "low", "mix"]) if name_case else "keep"
    for l in lines:
        m = re.match("(?:BEGIN|END):[A-Z-]*$|[A-Z0-9-]*(?=[:;])", l)
        if m:
            n = m.group(0)
            n = (n.lower() if case == "low" else n if case == "keep" else
                 "".join(rng.choice([c.lower(), c]) for c in n))
            l = n + l[m.end():]
        parts = [""]
        for i, c in enumerate(l):
            if i and rng.random() < dens:
                parts.append("")
            parts[-1] += c
        for i, p in enumerate(parts):
            e = end()
            if rng.random() < blank:
                e += "\r\n" * rng.randrange(1, 3)
            out += (rng.choice(" \t") if i else "") + p + e
    if rng.random() < 0.3:
        out = out.rstrip("\r\n")
    if rng.random() < 0.2:
        out = "\r\n" + out
    return out


def rand_lines(rng):
    src = gen.rcomp(rng, "calendar", rng.choice([0.05, 0.15, 0.3]), 0.3)
    for n in ("events", "todos"):
        if len(src["a"][n]) > 1:
            src["a"][n] = src["a"][n][:1]
    try:
        cal = comps.dec(src)
        if rng.random() < 0.3 and cal.events:
            cal.events[0].description = rng.choice(
                ["a\x0bb", "x\x85y", "l\u2028m\u2029", "\x0c\x1c\x1d\x1e", "a b " * 30, "\t\t x"])
        items = comps.read_tree(cal.serialize())[0][0]["items"]
    except Exception:
        items = gen.catalogue()[0]["calendar"]
    items = copy.deepcopy(c14.decorate(rng, copy.deepcopy(items), "calendar",
                                       rng.random() < 0.15))
    t = comps.write_tree([gen.K("VCALENDAR", *items)])
    return re.sub("\r\n[ \t]", "", t).rstrip("\r\n").split("\r\n")


def broken(rng, lines):
    """texts that are not one calendar"""
    r = rng.randrange(12)
    ls = list(lines)
    if r == 0:
        return []
    if r == 1:
        return ls + lines
    if r == 2:
        return ls[:-1]
    if r == 3:
        return ["X-A:1"] + ls
    if r == 4:
        return ls + [rng.choice(["X-A:1", "END:VCALENDAR", "BEGIN:VEVENT", "junk"])]
    if r == 5:
        n = rng.choice(["VEVENT", "VCALENDARS", "VTODO", "CALENDAR", ""])
        return ["BEGIN:" + n] + ls[1:-1] + ["END:" + n]
    if r == 6:
        return ["BEGIN:VCALENDAR"] + ls + ["END:VCALENDAR"]
    if r == 7:
        return [" " + ls[0]] + ls[1:]
    if r == 8:
        k = rng.randrange(len(ls))
        return ls[:k] + ls[k + 1:]
    if r == 9:
        k = rng.randrange(len(ls) + 1)
        return ls[:k] + ["no colon"] + ls[k:]
    if r == 11:
        return ["BEGIN:VCALENDAR", "END:VCALENDAR"]
    return ["VERSION:2.0", "PRODID:p"]


def session(args):
    import ics

    seed, n = args
    rng = random.Random(seed)
    pool = [rand_lines(rng) for _ in range(rng.choice([1, 1, 2]))]
    steps, first, kept = [], {}, []

    def note(ok, cal, i):
        """remember the first calendar of each kind; equal to it?"""
        return cal == first.setdefault(i, cal) if ok else True

    def read(form, pieces, what, **more):
        got = outcome(lambda: make(what))
        st = {"op": "read", "form": form, "pieces": [cps(p) for p in pieces], "ok": got["ok"],
              "exc": got["exc"], "id": "", "eq": True, **more}
        if got["ok"]:
            cal, st["id"] = got["res"]
            st["eq"] = bool(note(True, cal, st["id"]))
            kept.append(cal)
        steps.append(st)

    for _ in range(n):
        lines = rng.choice(pool)
        r = rng.random()
        if r < 0.2:
            t = rewrite(rng, broken(rng, lines))
        else:
            t = rewrite(rng, lines)
        if r < 0.5:
            form, pieces, what = rng.choice(supplies(t))
            read(form, pieces, what)
        elif r < 0.65:
            try:
                cs = list(ics.contentline.string_to_containers(t))
            except Exception:
                continue
            for i, c in enumerate(cs):
                if isinstance(c, ics.Container):
                    read("container", [t], lambda: c, i=i + 1)
                    if kept and rng.random() < 0.5:
                        # what is done to a calendar read must not matter later
                        k = kept[-1]
                        victim = ics.Calendar(k.serialize())
                        if first.get(steps[-1]["id"]) is not k:
                            victim = k
                            kept.pop()
                        victim.events.clear()
                        victim.extra.clear()
                        victim.prodid = "changed"
                    read("container", [t], lambda: c, i=i + 1)
        elif r < 0.85:
            parts = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
            if rng.random() < 0.25:
                parts.insert(rng.randrange(len(parts) + 1), broken(rng, lines))
            t = rewrite(rng, [l for p in parts for l in p])

            def go():
                with ics.event.deterministic_event_data("gen", c13.gen_stamp()):
                    return [(c, ident(c)) for c in ics.Calendar.parse_multiple(t)]

            got = outcome(go)
            st = {"op": "multi", "pieces": [cps(t)], "ok": got["ok"], "exc": got["exc"],
                  "ids": [i for _, i in got["res"]],
                  "eq": all(note(True, c, i) for c, i in got["res"])}
            steps.append(st)
        elif kept:
            cal = rng.choice(kept)

            def go():
                with ics.event.deterministic_event_data("gen", c13.gen_stamp()):
                    return list(cal), cal.serialize()

            got = outcome(go)
            ls, text = got["res"] if got["ok"] else ([], "")
            steps.append({"op": "iter", "lines": [cps(l) for l in ls], "text": cps(text),
                          "ok": got["ok"], "exc": got["exc"]})
            if ls:
                read("lines", ls, lambda: list(ls))
                read("string", [text], lambda: text)
                buf = io.StringIO(newline="")
                buf.writelines(ls)
                buf.seek(0)
                read("lines", phys(text), lambda: buf)
    return {"steps": steps or [{"op": "read", "form": "string", "pieces": [[]], "ok": False,
                                "exc": "ValueError", "id": "", "eq": True}]}


def sessions(chunk):
    comps.init()
    return [session(a) for a in chunk]


def run(ctx):
    comps.init()
    comps.zones()
    runs = ctx.pick([(0, 2, '"fold", "blank", "ends"'), (1, 1, '"fold", "blank", "ends", "flip"'),
                     (0, 2, '"flip", "ends"')],
                    [(0, 2, '"fold", "blank", "ends", "flip"'),
                     (1, 1, '"fold", "blank", "ends", "flip"')])
    for b, ops, kinds in runs:
        rs = ctx.explore("MC_Transport", f" MaxOps = {ops}\n Kinds = {{{kinds}}}",
                         ["SameTree", "Report"], header={"bases": [cps(BASES[b])]})
        rs = [dict(r, b=b + 1) for r in rs]
        for x in core.parallel(replay, core.split(rs)):
            ctx.mismatch(x.pop("what"), **x)
        ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 6) for _ in range(ctx.pick(240, 4000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("TransportTrace", logs)
    ctx.assumptions += ["skipped and repeated local hours are excluded",
                        "names flipped in case are ASCII; parameter names keep their case"]
