"""C13: a calendar survives writing and reading back unchanged."""
import random

from lib import compgen as gen
from lib import comps, core
from lib.core import txt
from lib.texts import outcome


def wrapped(c):
    """a real calendar holding a component of any class, and a way to it"""
    import ics

    cls = c if isinstance(c, str) else comps.cls_of(c)
    if cls == "calendar":
        return c, lambda cal: cal
    if cls == "event":
        return ics.Calendar(events=[c]), lambda cal: cal.events[0]
    if cls == "todo":
        return ics.Calendar(todos=[c]), lambda cal: cal.todos[0]
    return (ics.Calendar(events=[ics.Event(alarms=[c])]),
            lambda cal: cal.events[0].alarms[0])


def find(items, cls):
    """the tree of the wrapped component in the tree of its calendar"""
    def sub(xs, n):
        return next(i["items"] for i in xs if i["t"] == "comp" and i["n"] == n)

    its = sub(items, "VCALENDAR")
    if cls == "calendar":
        return its
    if cls == "todo":
        return sub(its, "VTODO")
    its = sub(its, "VEVENT")
    return its if cls == "event" else sub(its, "VALARM")


def roundtrip(c, o):
    """write, read back, write again; c the value, o the real component"""
    import ics

    rec = {"c": c, "obs": comps.enc(o), "tree": [], "back": {"ok": False, "exc": "", "c": []},
           "same": False, "offs": [[], []], "pristine": False, "n": -1}
    cal, way = wrapped(o)
    box = {}

    def write():
        box["text"] = cal.serialize()
        its, _ = comps.read_tree(box["text"])
        rec["n"] = len(its)
        return find(its, c["cls"])

    w = outcome(write)
    rec["ok"], rec["exc"] = w["ok"], w["exc"]
    if not w["ok"]:
        return rec
    rec["tree"] = w["res"]
    rec["pristine"] = comps.enc(o) == rec["obs"]

    def read():
        with ics.event.deterministic_event_data("gen", gen_stamp()):
            box["cal"] = ics.Calendar(box["text"])
        return comps.enc(way(box["cal"]))

    r = outcome(read)
    rec["back"] = {"ok": r["ok"], "exc": r["exc"], "c": r["res"]}
    if r["ok"]:
        rec["offs"] = [comps.offsets(o), comps.offsets(way(box["cal"]))]
        rec["same"] = outcome(lambda: box["cal"].serialize() == box["text"])["res"] is True
    return rec


def gen_stamp():
    import datetime as dtm

    return dtm.datetime(2000, 1, 1, 12, tzinfo=dtm.timezone.utc)


def known_sig(cls, items, known):
    """what the order-independent comparison of Components!SameTree compares"""
    by = {}
    for i in items:
        if i["n"] in known[cls]:
            key = i["n"]
        else:
            key = ""
        if i["t"] == "comp" and key:
            sub = {"VEVENT": "event", "VTODO": "todo"}.get(i["n"])
            sub = sub or next((a for a, t in (("audio", "AUDIO"), ("display", "DISPLAY"),
                                              ("email", "EMAIL"), ("none", "NONE"))
                               if any(x["n"] == "ACTION" and txt(x["v"]) == t
                                      for x in i["items"])), "custom")
            v = known_sig(sub, i["items"], known)
        elif i["t"] == "comp":
            v = plain(i)
        else:
            v = plain(i, key and default_type(cls, i["n"]))
        by.setdefault(key, []).append(v)
    return by


def plain(i, default=None):
    if i["t"] == "comp":
        return ["comp", i["n"], [plain(x) for x in i["items"]]]
    ps = sorted((p["n"], tuple(p["vals"])) for p in i["ps"])
    return ["line", i["n"], [p for p in ps if p != ("VALUE", (default,))], i["v"]]


def default_type(cls, n):
    return {"DTSTART": "DATE-TIME", "DTEND": "DATE-TIME", "DUE": "DATE-TIME",
            "DURATION": "DURATION", "CREATED": "DATE-TIME", "LAST-MODIFIED": "DATE-TIME",
            "DTSTAMP": "DATE-TIME", "COMPLETED": "DATE-TIME", "TRIGGER": "DURATION",
            "ATTACH": "URI", "REPEAT": "INTEGER", "PERCENT": "INTEGER", "PRIORITY": "INTEGER",
            "TRANSPARENT": "BOOLEAN", "ORGANIZER": "", "ATTENDEE": "", "GEO": "X-GEO"}.get(n, "TEXT")


ENTRYP = {"DTSTART", "DTEND", "DUE", "DURATION", "SUMMARY", "UID", "DESCRIPTION", "LOCATION", "URL",
          "STATUS", "CREATED", "LAST-MODIFIED", "DTSTAMP", "VALARM", "ATTACH"}
ALARMP = {"ACTION", "TRIGGER", "REPEAT", "DURATION"}
KNOWN = {"event": ENTRYP | {"CLASSIFICATION", "TRANSPARENT", "ORGANIZER", "GEO", "ATTENDEE",
                            "CATEGORIES"},
         "todo": ENTRYP | {"PERCENT", "PRIORITY", "COMPLETED"},
         "calendar": {"VERSION", "PRODID", "SCALE", "METHOD", "VEVENT", "VTODO", "VTIMEZONE"},
         "audio": ALARMP | {"ATTACH"}, "custom": ALARMP, "display": ALARMP | {"DESCRIPTION"},
         "email": ALARMP | {"SUMMARY", "DESCRIPTION", "ATTENDEE", "ATTACH"}, "none": ALARMP}
for _c in KNOWN:
    gen.KNOWN[_c] = KNOWN[_c] | {"VTIMEZONE"}


def same_tree(cls, a, b):
    return known_sig(cls, a, KNOWN) == known_sig(cls, b, KNOWN)


def replay(chunk):
    import random

    comps.init()
    bad = []
    for i, r in enumerate(chunk):
        c = r["c"]
        names = list(c["a"])
        rng = random.Random(i)
        o = comps.dec(c, i % 3, rng.sample(names, i % 3), i % 2 == 0)
        rec = roundtrip(c, o)
        what = ("building" if rec["obs"] != c else
                "writing (raised)" if not rec["ok"] else
                "writing" if not same_tree(c["cls"], r["o"], rec["tree"]) else
                "reading back (raised)" if not rec["back"]["ok"] else
                "reading back" if rec["back"]["c"] != c else
                "offsets" if rec["offs"][0] != rec["offs"][1] else
                "writing again" if not rec["same"] else
                "writing (changed the component)" if not rec["pristine"] else "")
        if what and not (what == "reading back" and only_day_lost(c, rec["back"]["c"])):
            bad.append({"what": what, "class": c["cls"], "component": c, "record": rec})
    return bad[:20]


def only_day_lost(a, b):
    """the all-day flag of a span without begin and end cannot be written"""
    def strip(v):
        if isinstance(v, dict):
            if set(v) == {"cls", "a", "x", "p"}:
                v = {**v, "p": []}
            if set(v) == {"k", "b", "e", "d", "day"} and not v["b"] and not v["e"]:
                return {**v, "day": False}
            return {k: strip(x) for k, x in v.items()}
        return [strip(x) for x in v] if isinstance(v, list) else v
    return strip(a) == strip(b)


def session(args):
    seed, n = args
    rng = random.Random(seed)
    steps = []
    for _ in range(n):
        cls = rng.choice(["event", "todo", "calendar", "calendar", rng.choice(comps.ALARMS)])
        c = gen.rcomp(rng, cls, rng.choice([0.1, 0.4, 0.8]), 0.2)
        late = rng.sample(comps.ATTRS[cls], rng.randrange(len(comps.ATTRS[cls]) + 1))
        made = outcome(lambda: comps.dec(c, rng.randrange(12), late, rng.random() < 0.3),
                       lambda x: [x])
        if not made["ok"]:
            steps.append({"op": "roundtrip", "made": False, "exc": made["exc"], "c": c})
            continue
        steps.append({"op": "roundtrip", "made": True, **roundtrip(c, made["res"][0])})
    return {"steps": steps}


def sessions(chunk):
    comps.init()
    return [session(a) for a in chunk]


def run(ctx):
    comps.init()
    comps.zones()
    base, cat = gen.catalogue()
    head = comps.header(dom=gen.domains(), base=base, cat=cat)
    rs = ctx.explore("MC_Components", 'Mode = "values"\n Width = 2\n Zones <- MCZones',
                     ["ReportValues", "WritesAndReads", "SetAttributesOnce"], header=head)
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch(f"{b['what']} differs from the model ({b['class']})", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 4) for _ in range(ctx.pick(300, 1500))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("ComponentTrace", logs, header=head, constants=" Zones <- TraceZones")
    ctx.assumptions += [
        "the all-day flag of an entry without begin and end is not written",
        "skipped and repeated local hours are excluded", "geo with at most six decimals",
        "custom alarm actions differ from the predefined ones",
        "parameter values free of control characters other than line feeds"]
