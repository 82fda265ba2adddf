"""Small domains and random components and texts."""
import base64

from lib import comps
from lib.core import cps

DAY = 737425                      # 2020-01-01 is day 737425
DAY = __import__("datetime").date(2020, 1, 1).toordinal()


def T(s):
    return {"text": cps(s)}


def dt(d, s, z):
    return {"w": [DAY + d, s], "f": 0, "z": z}


def span(k, b=None, e=None, d=None, day=False):
    return {"span": {"k": k, "b": [b] if b else [], "e": [e] if e else [],
                     "d": [d] if d else [], "day": day}}


def person(e, **x):
    return {"person": {"e": cps(e), "x": [{"n": k.replace("_", "-"), "vals": v}
                                          for k, v in sorted(x.items())]}}


def comp(cls, x=(), **a):
    full = {n: [] for n in comps.ATTRS[cls]}
    full.update(a)
    if cls in ("event", "todo"):
        full["timespan"] = full["timespan"] or [span(cls)]
        full["uid"] = full["uid"] or [T("u")]
        full["dtstamp"] = full["dtstamp"] or [{"dt": dt(0, 0, "UTC")}]
    if cls == "calendar":
        full["version"] = full["version"] or [T("2.0")]
        full["prodid"] = full["prodid"] or [T("p")]
    return {"cls": cls, "a": full, "x": list(x), "p": []}


def C(c):
    return {"comp": c}


URIS = ["http://a/b?c=d,e;f&g=\u00e9#h", "mailto:a@b", "", "cid:1"]
ODD = "a,b;c\\d\ne\rf:g\"h'"


def domains():
    texts = [[], [T("x")], [T(ODD)], [T("")], [T("\\")], [T("\u00e9\U0001f600 " * 30)]]
    stamps = [[], [{"dt": dt(0, 43200, "UTC")}], [{"dt": dt(-1, 1, "UTC")}]]
    att = [[], [{"uri": cps(URIS[0])}], [{"bytes": [0, 255, 62, 63]}],
           [{"uri": cps(URIS[3])}, {"bytes": [1]}, {"uri": cps(URIS[1])}, {"bytes": [1, 2]}]]
    p1 = person("mailto:a@b,c;d", CN=["x,y", "z"], ROLE=["CHAIR"])
    p2 = person("b", X_Y=["q:r"])
    people = [[], [p1], [p2, p1, p2]]

    def spans(k):
        B, N = "Europe/Berlin", "America/New_York"
        r = [[span(k)], [span(k, dt(0, 36000, ""))],
             [span(k, dt(0, 36000, "UTC"), dt(0, 36000, "UTC"))],
             [span(k, dt(0, 36000, B), dt(1, 0, B))],
             [span(k, dt(0, 36000, B), dt(1, 0, N))],
             [span(k, dt(0, 36000, B), None, [0, 5400])],
             [span(k, dt(0, 1, ""), None, [0, 0])],
             [span(k, dt(0, 0, ""), dt(2, 0, ""), None, True)],
             [span(k, dt(0, 0, ""), None, [1, 0], True)],
             [span(k, dt(0, 0, ""), None, None, True)]]
        if k == "todo":
            r += [[span(k, None, dt(0, 3, N))], [span(k, None, dt(0, 0, ""), None, True)]]
        return r

    trig = [[], [{"dur": [-1, 85500]}], [{"dt": dt(0, 3600, "UTC")}], [{"dur": [0, 0]}],
            [{"dt": dt(200, 3600, "Europe/Berlin")}]]
    al = {"trigger": trig, "repeat": [[], [{"int": 0}], [{"int": 12}]],
          "duration": [[], [{"dur": [0, 300]}], [{"dur": [7, 0]}]]}
    d = {"audio": {**al, "attach": att[:3]},
         "custom": {**al, "action": [[T("X-DO")], [T("a,b")], [T("display")]]},
         "display": {**al, "description": texts},
         "email": {**al, "summary": texts, "description": texts, "attendees": people,
                   "attach": att},
         "none": al}
    alarms = [[], [C(comp("display", description=[T("d")], trigger=trig[1]))],
              [C(comp("audio", attach=att[2])), C(comp("none")), C(comp("email", attendees=[p2])),
               C(comp("custom", action=[T("X")], repeat=[{"int": 1}]))]]
    entry = {"summary": texts, "uid": [[T("u")], [T("v;,")]], "description": texts[:4],
             "location": texts[:4], "url": [[], [T("http://a,b")], [{"uri": cps(URIS[0])}],
                                            [{"uri": cps("")}]],
             "status": [[], [T("TENTATIVE")], [T("CONFIRMED")], [T("CANCELLED")]],
             "created": stamps, "last_modified": stamps, "dtstamp": stamps[1:],
             "alarms": alarms, "attach": att}
    d["event"] = {**entry, "timespan": spans("event"), "classification": texts[:3],
                  "transparent": [[], [{"bool": True}], [{"bool": False}]],
                  "organizer": people[:2], "geo": [[], [{"geo": [1500000, -500000]}],
                                                   [{"geo": [0, 179999999]}]],
                  "attendees": people,
                  "categories": [[], [T("a")], [T("a,b"), T(""), T("c\\")], [T("x"), T("x")]]}
    d["todo"] = {**entry, "timespan": spans("todo"),
                 "percent": [[], [{"int": 0}], [{"int": 100}]],
                 "priority": [[], [{"int": 0}], [{"int": 9}]],
                 "completed": [[], [{"dt": dt(3, 7, "Europe/Berlin")}], [{"dt": dt(3, 7, "")}],
                               [{"dt": dt(3, 7, "UTC")}]]}
    ev = [C(comp("event", summary=[T("1")], alarms=alarms[2])),
          C(comp("event", timespan=[span("event", dt(0, 0, "Europe/Berlin"))]))]
    td = [C(comp("todo", summary=[T("2")])), C(comp("todo", alarms=alarms[1]))]
    d["calendar"] = {"version": [[T("2.0")], [T("x;y")]], "prodid": [[T("p")], [T("p,q")]],
                     "scale": texts[:3], "method": texts[:3],
                     "events": [[], ev[:1], ev, [ev[1], ev[0], ev[1]]],
                     "todos": [[], td[:1], td]}
    return d


def L(n, v, **ps):
    return {"t": "line", "n": n.replace("_", "-"),
            "ps": [{"n": k.replace("_", "-"), "vals": x} for k, x in sorted(ps.items())],
            "v": cps(v)}


def K(n, *items):
    return {"t": "comp", "n": n, "items": list(items)}


def catalogue():
    unknown = [L("X-A", "1"), L("X-B", "a,b;c", X_P=["1", "2,3"]), L("RRULE", "FREQ=DAILY"),
               K("X-COMP", L("SUMMARY", "s"), K("VALARM", L("ACTION", "NONE")))]
    entry = unknown + [
        L("UID", "u1"), L("DTSTAMP", "20200101T000000Z", X_P=["1"]),
        L("DTSTART", "20200101T100000", TZID=["Europe/Berlin"], X_S=["1"]),
        L("DTSTART", "20200101", VALUE=["DATE"], X_S=["1"]), L("DTSTART", "20200101T100000Z"),
        L("DTEND", "20200102", VALUE=["DATE"], X_E=["1"]),
        L("DTEND", "20200102T100000Z", X_E=["2"]), L("DUE", "20200102T100000Z", X_E=["3"]),
        L("DTEND", "20200102T100000", TZID=["America/New_York"], VALUE=["DATE-TIME"]),
        L("DURATION", "PT1H", X_D=["1"]), L("DURATION", "P1D"), L("DUE", "20191231T000000Z"),
        L("SUMMARY", "s", LANGUAGE=["en"]), L("SUMMARY", "v", LANGUAGE=["en"], VALUE=["TEXT"]),
        L("SUMMARY", "a,b"), L("ATTACH", "http://c", VALUE=["URI"], X_P=["1"]), L("SUMMARY", "\\,\\n"),
        L("URL", "http://x/y"), L("URL", "http://x/y,z", VALUE=["URI"], X_U=["1"]),
        L("STATUS", "confirmed", X_Q=["1"]), L("STATUS", "MAYBE"),
        L("CREATED", "20200101T120000", TZID=["Europe/Berlin"], X_C=["1"]),
        L("LAST-MODIFIED", "20200101T120000Z"), L("CREATED", "yesterday"),
        L("ATTACH", "http://a,b", FMTTYPE=["text/plain"]),
        L("ATTACH", "AAEC", VALUE=["BINARY"], ENCODING=["BASE64"]),
        L("ATTACH", "AAEC", VALUE=["TEXT"]),
        K("VALARM", L("ACTION", "DISPLAY", X_A=["1"]), L("TRIGGER", "-PT15M", RELATED=["END"])),
        K("VALARM", L("TRIGGER", "-PT15M"))]
    event = entry + [
        K("VALARM", L("ACTION", "EMAIL"), L("ATTENDEE", "c", CN=["y"]), L("ATTENDEE", "d"),
          L("ATTACH", "http://d"), L("SUMMARY", "t", LANGUAGE=["fr"])),
        L("CATEGORIES", "v,w", VALUE=["TEXT"], X_P=["1"]),
        L("CATEGORIES", "a,b\\,c", LANGUAGE=["de"]), L("CATEGORIES", "d"),
        L("CATEGORIES", ",e,", X_P=["1"]), L("CATEGORIES", "a,b,c,d,e,f,g,h,i,j,k"), L("CATEGORIES", "f\\"),
        L("ATTENDEE", "mailto:a@b,c", CN=["x"], X_P=["1", "2"]), L("ATTENDEE", "b"),
        L("ORGANIZER", "mailto:o@b", CN=["x"]), L("GEO", "1.5;-2.25", X_G=["1"]),
        L("GEO", "1.5"), L("TRANSPARENT", "TRUE", X_T=["1"]), L("TRANSP", "OPAQUE"),
        L("CLASSIFICATION", "PUBLIC", X_T=["1"]), L("CLASS", "PUBLIC")]
    todo = entry + [
        L("PERCENT", "50", X_P=["1"]), L("PERCENT", "101"), L("PERCENT", "x"),
        L("PRIORITY", "9", X_P=["1"]), L("PRIORITY", "10"),
        L("COMPLETED", "20200101T120000", TZID=["Europe/Berlin"], X_P=["1"]),
        L("ATTENDEE", "b"), L("CATEGORIES", "a,b")]
    cal = unknown + [
        L("VERSION", "3.0"), L("SCALE", "G", X_P=["1"]), L("METHOD", "PUBLISH", X_P=["1"]),
        L("CALSCALE", "GREGORIAN"), L("METHOD", "a;b"), L("SUMMARY", "x"),
        K("VEVENT", L("UID", "1"), L("DTSTAMP", "20200101T000000Z"), L("X-E", "1"),
          L("DTSTART", "20200101T000000", X_S=["1"])),
        K("VEVENT", L("UID", "2"), L("DTSTAMP", "20200101T000000Z"),
          L("CATEGORIES", "a,b"), L("CATEGORIES", "c")),
        K("VEVENT", L("DTEND", "20200101T000000Z")),
        K("VTODO", L("UID", "3"), L("DTSTAMP", "20200101T000000Z"), L("DUE", "20200101T000000")),
        K("VJOURNAL", L("UID", "4"))]
    alarm = unknown + [
        L("TRIGGER", "-PT15M", RELATED=["END"]),
        L("TRIGGER", "20200101T000000Z", VALUE=["DATE-TIME"], X_T=["1"]),
        L("TRIGGER", "20200101T000000Z"), L("REPEAT", "4", X_R=["1"]), L("REPEAT", "four"),
        L("DURATION", "PT5M", X_D=["1"]), L("DESCRIPTION", "d", LANGUAGE=["x"]),
        L("SUMMARY", "s", LANGUAGE=["y"]), L("ATTENDEE", "mailto:a", CN=["c"]),
        L("ATTENDEE", "b"), L("ATTACH", "http://a", X_A=["1"]),
        L("ATTACH", "AAEC", VALUE=["BINARY"], X_A=["2"])]
    fixed = [L("UID", "u"), L("DTSTAMP", "20200101T000000Z")]
    base = {"event": [], "todo": [],
            "calendar": [L("PRODID", "p", X_P=["1"]), L("VERSION", "2.0")],
            "audio": [L("ACTION", "AUDIO", X_A=["1"])], "display": [L("ACTION", "DISPLAY")],
            "email": [L("ACTION", "EMAIL", X_A=["1"])], "none": [L("ACTION", "NONE")],
            "custom": [L("ACTION", "X-A\\,B", X_A=["1"])]}
    cat = {"event": event, "todo": todo, "calendar": cal,
           **{k: alarm + [L("ACTION", "AUDIO")] for k in comps.ALARMS}}
    return base, cat


# ----------------------------------------------------------------- random

WORDS = ["a", "Meeting", "", "x,y", "a;b", "c\\", "\\n", "line\nbreak", "cr\rlf\r\n", "\u00fcn\u00ef",
         "\U0001f600", " lead", "trail ", ":", '"q"', "^n", "=", "long " * 40, "\t", "\u2028", "\x0b",
         "\x85", "BEGIN:VEVENT", "END:VCALENDAR", "tab\there"]


def rtext(rng):
    return {"text": cps("".join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 2, 4]))))}


def rdt(rng, zoned=None, lo=-1300, hi=1400):
    z = zoned if zoned is not None else rng.choice(["", "UTC", "Europe/Berlin", "America/New_York"])
    d = rng.randrange(lo, hi)
    s = rng.choice([0, 43200, 86399, 1, rng.randrange(86400)])
    v = dt(d, s, z)
    if z in ("Europe/Berlin", "America/New_York"):
        # stay away from skipped and repeated hours
        n = comps.dec_dt(v)
        if n.month in (3, 10, 11) and n.weekday() == 6:
            v["w"][1] = rng.choice([0, 43200, 86399])
    return v


def rdur(rng, neg=False):
    d, s = rng.choice([0, 0, 1, 7, 40]), rng.choice([0, 0, 60, 3600, 5430, 86399])
    return [-d - 1, s] if neg and rng.random() < 0.5 else [d, s]


def rspan(rng, k):
    r = rng.random()
    if r < 0.12:
        return span(k)
    if r < 0.3:
        b = dt(rng.randrange(-1000, 1000), 0, "")
        n = rng.choice([1, 2, 30])
        e = {**b, "w": [b["w"][0] + n, 0]}
        return rng.choice([span(k, b, e, None, True), span(k, b, None, [n, 0], True),
                           span(k, b, None, None, True)])
    b = rdt(rng)
    if k == "todo" and r < 0.4:
        return span(k, None, b)
    if r < 0.5:
        return span(k, b)
    if r < 0.7:
        return span(k, b, None, rdur(rng))
    z = b["z"]
    if z and rng.random() < 0.3:
        z = rng.choice(["UTC", "Europe/Berlin", "America/New_York"])
    e = rdt(rng, z, lo=b["w"][0] - DAY + (0 if z == b["z"] else 2), hi=b["w"][0] - DAY + 40)
    if e["w"] < b["w"] and z == b["z"]:
        e["w"] = [b["w"][0], b["w"][1]]
    return span(k, b, e)


PNAMES = ["CN", "ROLE", "X-P", "LANGUAGE", "RSVP", "X-Q", "RELATED", "MEMBER"]
PVALS = ["a", "b c", "x,y", "p;q", "r:s", 'q"uote', "caret^", "nl\nx", "\u00fc", "TRUE", "mailto:a@b",
         "1"]


def rparams(rng, most=2, names=PNAMES):
    ns = rng.sample(names, rng.choice(range(most + 1)))
    return [{"n": n, "vals": [rng.choice(PVALS) for _ in range(
        rng.choice([1, 1, 2] if rng.random() < 0.97 else [5, 9, 20]))]}
            for n in sorted(ns)]


def rperson(rng):
    return {"person": {"e": cps(rng.choice(["mailto:a@b.c", "x", "mailto:a,b;c@d", "urn:1:2",
                                            "http://h/p?q=1#f"])), "x": rparams(rng, 3)}}


def ruri(rng):
    return {"uri": cps(rng.choice(URIS + ["http://h/p;x?q#f", "ftp://a", "urn:x:y", "//h/p"]))}


def rattach(rng):
    if rng.random() < 0.5:
        return ruri(rng)
    return {"bytes": [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 100, 57, 58, 1500]
                                                            if rng.random() < 0.1 else [0, 1, 2, 3, 4, 100]))]}


def rline(rng):
    n = rng.choice(["X-A", "X-B", "RRULE", "EXDATE", "COMMENT", "X-LONG", "REQUEST-STATUS", "CLASS",
                    "TRANSP", "PERCENT-COMPLETE"])
    v = rng.choice(["", "1", "a,b;c:d", "FREQ=DAILY;COUNT=3", "\\n\\,", "x" * 90, "\u00e9" * 40])
    return {"t": "line", "n": n, "ps": rparams(rng), "v": cps(v)}


def ritem(rng, depth=2):
    if depth and rng.random() < 0.25:
        return {"t": "comp", "n": rng.choice(["X-COMP", "VJOURNAL", "VFREEBUSY", "STANDARD"]),
                "items": [ritem(rng, depth - 1) for _ in range(rng.randrange(3))]}
    return rline(rng)


def rcomp(rng, cls, density=0.4, extra=0.3):
    def some(f, p=density):
        return [f()] if rng.random() < p else []

    def many(f, p=density, most=25):
        n = rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else rng.randrange(9, most)
        return [f() for _ in range(n)] if rng.random() < p else []

    a = {}
    t = lambda: rtext(rng)  # noqa: E731
    utc = lambda: {"dt": rdt(rng, "UTC")}  # noqa: E731
    if cls in ("event", "todo"):
        a = {"timespan": [rspan(rng, cls)], "summary": some(t), "uid": [rtext(rng)],
             "description": some(t), "location": some(t),
             "url": some(lambda: rng.choice([rtext, ruri])(rng)),
             "status": some(lambda: T(rng.choice(["TENTATIVE", "CONFIRMED", "CANCELLED"]))),
             "created": some(utc), "last_modified": some(utc), "dtstamp": [utc()],
             "alarms": many(lambda: C(rcomp(rng, rng.choice(comps.ALARMS), density, extra)),
                            density / 2),
             "attach": many(lambda: rattach(rng), density / 2)}
    if cls == "event":
        a |= {"classification": some(t, density / 2),
              "transparent": some(lambda: {"bool": rng.random() < 0.5}),
              "organizer": some(lambda: rperson(rng)),
              "geo": some(lambda: {"geo": [rng.randrange(-90000000, 90000001),
                                           rng.choice([0, -1, 180000000, 500000, -999999,
                                                       rng.randrange(-180000000, 180000000)])]}),
              "attendees": many(lambda: rperson(rng)), "categories": many(t) if rng.random() < 0.7 else [rtext(rng) for _ in range(8)]}
    if cls == "todo":
        a |= {"percent": some(lambda: {"int": rng.choice([0, 1, 50, 99, 100])}),
              "priority": some(lambda: {"int": rng.randrange(10)}),
              "completed": some(lambda: {"dt": rdt(rng)})}
    if cls == "calendar":
        a = {"version": [rng.choice([T("2.0"), rtext(rng)])], "prodid": [rtext(rng)],
             "scale": some(t), "method": some(t)}
        if rng.random() < 0.03:      # many small components
            density, extra = density / 8, extra / 8
            a |= {k + "s": [C(rcomp(rng, k, density, extra)) for _ in range(rng.randrange(5, 40))]
                  for k in ("event", "todo")}
        else:
            a |= {
             "events": many(lambda: C(rcomp(rng, "event", density, extra)), 0.8),
             "todos": many(lambda: C(rcomp(rng, "todo", density, extra)), 0.6)}
    if cls in comps.ALARMS:
        a = {"trigger": some(lambda: rng.choice([{"dur": rdur(rng, True)}, {"dt": rdt(rng)}]), 0.7),
             "repeat": some(lambda: {"int": rng.choice([0, 1, 99, 1000, 2147483647])}),
             "duration": some(lambda: {"dur": rdur(rng)})}
    if cls == "audio":
        a["attach"] = some(lambda: rattach(rng))
    if cls == "custom":
        a["action"] = [T(rng.choice(["X-A", "PROCEDURE", "a,b", "audio", "x y"]))]
    if cls == "display":
        a["description"] = some(t)
    if cls == "email":
        a |= {"summary": some(t), "description": some(t), "attendees": many(lambda: rperson(rng)),
              "attach": many(lambda: rattach(rng))}
    known = KNOWN[cls]
    x = []
    if rng.random() < extra:
        x = [i for i in (ritem(rng) for _ in range(rng.choice([1, 2, 4, 4, 12])))
             if i["n"] not in known]
    return {"cls": cls, "a": a, "x": x, "p": []}


KNOWN = {c: {"VTIMEZONE"} for c in comps.ATTRS}


def b64(bs):
    return base64.b64encode(bytes(bs)).decode()
