"""C14: unknown properties, sub-components and parameters survive."""
import random

from checks import c13
from lib import compgen as gen
from lib import comps, core
from lib.texts import outcome

SUB = {"event": "VEVENT", "todo": "VTODO"}


def in_calendar(cls, items):
    """a whole calendar around the items of a component"""
    if cls == "calendar":
        return [gen.K("VCALENDAR", *items)]
    fixed = [gen.L("VERSION", "2.0"), gen.L("PRODID", "p")]
    if cls in SUB:
        return [gen.K("VCALENDAR", *fixed, gen.K(SUB[cls], *items))]
    return [gen.K("VCALENDAR", *fixed, gen.K("VEVENT", gen.L("UID", "1"),
                                             gen.L("DTSTAMP", "20200101T000000Z"),
                                             gen.K("VALARM", *items)))]


def read(items):
    import ics

    text = comps.write_tree(items)

    def go():
        with ics.event.deterministic_event_data("gen", c13.gen_stamp()):
            return [ics.Calendar(text)]
    return outcome(go, lambda x: x)


def written(cal):
    def go():
        its, tzids = comps.read_tree(cal.serialize())
        if len(its) != 1:
            raise RuntimeError("not one component")
        return its[0]["items"]
    return outcome(go)


def replay(chunk):
    comps.init()
    bad = []
    for r in chunk:
        cls = r["cls"]
        rec = read(in_calendar(cls, r["items"]))
        what = ""
        if r["k"] == "bad":
            what = "a text that must be rejected was read" if rec["ok"] else ""
        elif r["k"] == "ok" and not rec["ok"]:
            what = "a valid text was rejected"
        elif r["k"] == "ok":
            cal = rec.pop("res")[0]
            out = written(cal)
            way = c13.wrapped(cls)[1] if cls not in comps.ATTRS or cls in (
                "event", "todo", "calendar") else (lambda c: c.events[0].alarms[0])
            obs = comps.enc(way(cal))
            rec = {"obs": obs, "out": out}
            want = dict(r["c"], p=[])
            if not c13.only_day_lost(want, obs):
                what = "reading"
            elif not out["ok"]:
                what = "writing raised"
            elif not c13.same_tree(cls, r["o"], c13.find(
                    [{"t": "comp", "n": "VCALENDAR", "items": out["res"]}], cls)):
                what = "writing"
        if rec.get("exc") == "hang":
            what = what or "hang"
        if what:
            rec.pop("res", None)
            bad.append({"what": what, "class": cls, "items": r["items"], "text":
                        comps.write_tree(in_calendar(cls, r["items"])), "record": rec})
    return bad[:20]


# ------------------------------------------------------------------ sessions

# value types that may be spelled out
TYPES = {**dict.fromkeys(["SUMMARY", "UID", "DESCRIPTION", "LOCATION", "STATUS", "CATEGORIES", "VERSION",
                          "PRODID", "SCALE", "METHOD", "CLASSIFICATION"], "TEXT"),
         **dict.fromkeys(["DTSTART", "DTEND", "DUE", "DTSTAMP", "CREATED", "LAST-MODIFIED",
                          "COMPLETED"], "DATE-TIME"),
         **dict.fromkeys(["PERCENT", "PRIORITY", "REPEAT"], "INTEGER"),
         "URL": "URI", "ATTACH": "URI", "TRANSPARENT": "BOOLEAN", "DURATION": "DURATION",
         "TRIGGER": "DURATION"}


def spelled(rng, i):
    """the line with its value type written out"""
    t = TYPES.get(i["n"])
    if t == "URI" and i["n"] == "URL" and "".join(map(chr, i["v"])) not in gen.URIS:
        return i              # such a line is not read as a text but normalised as a URI
    if not t or any(p["n"] == "VALUE" for p in i["ps"]):
        return i
    return dict(i, ps=i["ps"] + [{"n": "VALUE", "vals": [t]}])


def decorate(rng, items, cls, wild):
    """vary parameters, merging and order of the lines of a tree"""
    out = []
    for i in items:
        if i["t"] == "comp":
            sub = {"VEVENT": "event", "VTODO": "todo", "VALARM": "alarm"}.get(i["n"])
            i = dict(i, items=decorate(rng, i["items"], sub, wild)) if sub else i
        elif rng.random() < 0.4:
            have = {p["n"] for p in i["ps"]}
            i = dict(i, ps=i["ps"] + [p for p in gen.rparams(rng) if p["n"] not in have])
        if i["t"] == "line" and rng.random() < 0.15:
            i = spelled(rng, i)
        prev = out[-1] if out else None
        if i["t"] == "line" and i["n"] == "CATEGORIES" and prev and prev["n"] == i["n"] \
                and rng.random() < 0.6:
            out[-1] = dict(prev, v=prev["v"] + [44] + i["v"])
            continue
        if i["t"] == "line" and i["n"] == "ATTACH" and prev and prev["n"] == i["n"] \
                and rng.random() < 0.6 and all(
                    {"n": "VALUE", "vals": ["BINARY"]} in x["ps"] for x in (prev, i)):
            out[-1] = dict(prev, v=prev["v"] + [44] + i["v"])
            continue
        out.append(i)
    for i in out:
        if i["t"] == "line":
            i["ps"] = sorted(i["ps"], key=lambda p: p["n"])
    if rng.random() < 0.4:
        rng.shuffle(out)
    if not wild:
        return out
    if rng.random() < 0.1 and out:
        out.insert(rng.randrange(len(out) + 1), rng.choice(out))
    if rng.random() < 0.08 and out:
        out.pop(rng.randrange(len(out)))
    if rng.random() < 0.2 and cls:
        cat = gen.catalogue()[1]["display" if cls == "alarm" else cls]
        out.insert(rng.randrange(len(out) + 1), rng.choice(cat))
    return out


def paths(c, pre=()):
    yield list(pre), c
    for n in ("events", "todos", "alarms"):
        for i, v in enumerate(c["a"].get(n, [])):
            yield from paths(v["comp"], (*pre, {"n": n, "i": i + 1}))


def reach(o, path):
    for p in path:
        o = getattr(o, p["n"])[p["i"] - 1]
    return o


def session(args):
    import copy

    seed, n = args
    rng = random.Random(seed)
    src = gen.rcomp(rng, "calendar", rng.choice([0.2, 0.5]), 0.5)
    try:
        items = comps.read_tree(comps.dec(src).serialize())[0][0]["items"]
    except Exception:
        items = gen.catalogue()[0]["calendar"]
    items = copy.deepcopy(decorate(rng, copy.deepcopy(items), "calendar", rng.random() < 0.4))
    r = read([gen.K("VCALENDAR", *items)])
    step = {"op": "import", "items": items, "ok": r["ok"], "exc": r["exc"]}
    steps = [step]
    if not r["ok"]:
        return {"steps": steps}
    cal = r["res"][0]

    def show(step):
        step["obs"] = comps.enc(cal)
        step["out"] = written(cal)

    show(step)
    for _ in range(rng.randrange(n + 1)):
        path, c = rng.choice(list(paths(comps.enc(cal))))
        o = reach(cal, path)
        op = rng.choice(["set", "set", "add", "drop", "strip", "strip"])
        st = {"op": op, "path": path, "ok": True, "exc": ""}
        if op == "set":
            names = [a for a in comps.ATTRS[c["cls"]]
                     if a not in ("events", "todos", "alarms", "action")]
            a = rng.choice(names)
            for _ in range(20):
                vals = gen.rcomp(rng, c["cls"], 0.8, 0)["a"].get(a, [])
                if (c["cls"], a) not in comps.LISTS or len(vals) == len(c["a"][a]):
                    break
            st |= {"n": a, "vals": vals}
            w = outcome(lambda: setattr(o, a, comps.decoded({"cls": c["cls"], "a": {a: vals}}, a)))
            st["ok"], st["exc"] = w["ok"], w["exc"]
        elif op == "add":
            item = gen.ritem(rng)
            if item["n"] in gen.KNOWN[c["cls"]]:
                continue
            st["item"] = item
            o.extra.append(comps.dec_item(item))
        elif op == "drop":
            if not c["x"]:
                continue
            st["i"] = rng.randrange(len(c["x"])) + 1
            del o.extra[st["i"] - 1]
        else:
            flags = {k: rng.choice([[], [], [True], [False]])
                     for k in ("props", "params", "merging")}
            st |= flags | {"all": rng.random() < 0.25}
            kw = {k: v[0] for k, v in zip(("extra_properties", "extra_params", "property_merging"),
                                          flags.values()) if v}
            if st["all"] or rng.random() < 0.3:
                kw["all_extras"] = st["all"]
            w = outcome(lambda: o.strip_extras(**kw))
            st["ok"], st["exc"] = w["ok"], w["exc"]
        show(st)
        steps.append(st)
    return {"steps": steps}


def sessions(chunk):
    comps.init()
    return [session(a) for a in chunk]


def run(ctx):
    comps.init()
    comps.zones()
    base, cat = gen.catalogue()
    head = comps.header(dom=gen.domains(), base=base, cat=cat)
    rs = ctx.explore("MC_Components",
                     f'Mode = "texts"\n Width = {ctx.pick(2, 3)}\n Zones <- MCZones',
                     ["ReportTexts", "KeepsUnknown", "KeepsParams", "Stable", "SinglesNotDropped"],
                     header=head)
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch(f"{b['what']} ({b['class']})", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 6) for _ in range(ctx.pick(600, 8000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("ComponentTrace", logs, header=head, constants=" Zones <- TraceZones")
    ctx.assumptions += ["stripping parameters also forgets which values shared a line",
                        "skipped and repeated local hours are excluded"]
