"""C23: any text is read or rejected with a ParseError or ValueError, as it
is a valid calendar or not; what was read can be written and read again."""
import random
import re
from urllib.parse import urlparse

from checks import c13, c22
from lib import compgen as gen
from lib import comps, core
from lib.core import cps, txt
from lib.texts import outcome, parse_text

TZ = """BEGIN:VTIMEZONE
TZID:Foo
TZURL:http://x/y
LAST-MODIFIED:20200101T000000Z
BEGIN:STANDARD
DTSTART:20201025T030000
TZOFFSETFROM:+0200
TZOFFSETTO:+0100
RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU
TZNAME:CET
END:STANDARD
BEGIN:DAYLIGHT
DTSTART:20200329T020000
TZOFFSETFROM:+0100
TZOFFSETTO:+0200
RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU;UNTIL=20300101T000000Z
RDATE:20210101T000000
COMMENT:c
END:DAYLIGHT
END:VTIMEZONE"""
EV = """BEGIN:VEVENT
UID:1
DTSTAMP:20200101T000000Z
DTSTART%s
DTEND%s
SUMMARY:s
DESCRIPTION:d\\, e
LOCATION:l
URL:http://x/
STATUS:TENTATIVE
CREATED:20200101T000000Z
LAST-MODIFIED:20200101T000000Z
ATTACH:http://a/
ATTACH;ENCODING=BASE64;VALUE=BINARY:AAEC
CLASSIFICATION:PUBLIC
TRANSPARENT:TRUE
ORGANIZER;CN=x:mailto:a@b
GEO:1.5;2.5
ATTENDEE;CN="x,y":mailto:a@b
CATEGORIES:a,b
RRULE:FREQ=DAILY
BEGIN:VALARM
ACTION:AUDIO
TRIGGER:-PT15M
ATTACH:http://a/
REPEAT:2
DURATION:PT5M
END:VALARM
BEGIN:VALARM
ACTION:EMAIL
TRIGGER;VALUE=DATE-TIME:20200101T000000Z
SUMMARY:a
DESCRIPTION:b
ATTENDEE:mailto:c@d
END:VALARM
BEGIN:VALARM
ACTION:DISPLAY
TRIGGER:PT0S
DESCRIPTION:b
END:VALARM
END:VEVENT"""
TD = """BEGIN:VTODO
UID:2
DTSTAMP:20200101T000000Z
DTSTART%s
DUE%s
PERCENT:10
PRIORITY:1
COMPLETED:20200101T000000Z
SUMMARY:t
END:VTODO"""
LOOSE = "BEGIN:VEVENT\nDTSTART:20200101T000000\nDURATION:PT1H\nEND:VEVENT"
UTC = ":20200101T100000Z", ":20200101T110000Z"
DAY = ";VALUE=DATE:20200101", ";VALUE=DATE:20200103"
BERLIN = ";TZID=Europe/Berlin:20200101T100000", ";TZID=Europe/Berlin:20200101T110000"
FOO = ";TZID=Foo:20200101T100000", ";TZID=Foo:20200101T110000"


def cal(*parts):
    return "\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p", "SCALE:GREGORIAN", "METHOD:PUBLISH",
                      *parts, "END:VCALENDAR"])


BASES = [cal(EV % UTC), cal(TZ, EV % FOO), cal(TD % UTC), cal(EV % DAY, TD % BERLIN, TZ), cal(EV % BERLIN),
         cal(TZ, EV % FOO, TD % DAY), cal(LOOSE)]
MIN = "BEGIN:VCALENDAR\nVERSION:2.0\nPRODID:p\n%s\nEND:VCALENDAR"
EXPLORED = [MIN % TZ, MIN % (EV % BERLIN), cal(TD % DAY, LOOSE)]

PROPS = """VERSION PRODID SCALE METHOD UID DTSTAMP DTSTART DTEND DUE DURATION SUMMARY DESCRIPTION LOCATION
URL STATUS CREATED LAST-MODIFIED ATTACH CLASSIFICATION TRANSPARENT ORGANIZER GEO ATTENDEE CATEGORIES PERCENT
PRIORITY COMPLETED ACTION TRIGGER REPEAT""".split()
COMPS = "VCALENDAR VEVENT VTODO VALARM VTIMEZONE".split()
PVALS = ["DATE", "DATE-TIME", "TEXT", "URI", "BINARY", "DURATION", "BOOLEAN", "INTEGER", "FLOAT", "X-GEO",
         "CAL-ADDRESS", "PERIOD", "UTC-OFFSET", "UTC", "BASE64", *comps.NAMES]
PNAMES = ["VALUE", "TZID", "ENCODING", "RELATED", "CN"]
TZ_PROPS = "TZID TZURL TZOFFSETFROM TZOFFSETTO RRULE RDATE EXDATE TZNAME COMMENT BEGIN END".split()


def names():
    return [{"s": n, "c": cps(n)} for n in dict.fromkeys(PROPS + COMPS + PVALS + PNAMES)]


VALS = ["", "x", "20200101", "20200101T000000", "20200101T000000Z", "20200230", "20200101T240000", "PT1H",
        "-P1D", "P", "PT", "P1W2D", "TRUE", "maybe", "1", "-1", "11", "101", "1;2", "1,2", "a;b;c", ";", ",",
        "\\", "\\n\\x", "mailto:x", "AUDIO", "EMAIL", "tentative", "VEVENT", "VALARM", "+0100", "+2500",
        "+01", "FREQ=YEARLY", "FREQ=X", "FREQ=YEARLY;COUNT=0", "AAEC", "AAE", "Europe/Berlin", "\u00e9\U0001f600"]
MORE = ["1e400", "nan", "inf", "1.5", "1_0", "\u0663", "20200101T\u066300000", "99999999T000000", "20201301",
        "99999999999999999999", "20200101T000000/PT1H", "00010101T000000", "99991231T235959",
        "P99999999999D", "http://[", "//[x", "9" * 5000, "a" * 300, "DISPLAY", "NONE", "UTC", "VCALENDAR",
        "STANDARD", "DAYLIGHT", "VTIMEZONE", "FREQ=MONTHLY", "FREQ=YEARLY;INTERVAL=0", "COUNT=1",
        "FREQ=YEARLY;BYMONTH=0", "+0000", "-0000", "-235959", "FREQ=YEARLY;UNTIL=x", "\x00", "\x7f"]
HEADS = ["X-A", "SUMMARY", "UID", "DTSTART", "DTSTART;VALUE=DATE", "DTSTART;TZID=Europe/Berlin",
         "DTSTART;TZID=Atlantis", "DTEND;VALUE=DATE", "DTEND", "DUE", "DURATION", "CREATED",
         "CREATED;TZID=Europe/Berlin", "DTSTAMP", "ATTACH", "ATTACH;VALUE=BINARY", "ATTACH;VALUE=TEXT",
         "SUMMARY;VALUE=", "GEO", "TRANSPARENT", "PERCENT", "STATUS", "ACTION", "TRIGGER", "REPEAT",
         "CATEGORIES", "TZID", "TZOFFSETTO", "RRULE", "RDATE", "BEGIN", "END", "summary;x=\"a,b\"", "", "A B",
         "X;", "X;=1", "X;P=\"", "VEVENT", "VALARM", "VTIMEZONE", "STANDARD", "DTSTART;TZID=\"a\",b"]
PARAMS = ["VALUE=DATE", "VALUE=DATE-TIME", "VALUE=TEXT", "VALUE=URI", "VALUE=BINARY", "VALUE=DURATION",
          "VALUE=", "VALUE=X", "VALUE=DATE,TIME", "TZID=Foo", "TZID=Europe/Berlin", "TZID=", "TZID=UTC",
          "TZID=a,b", "X=1", "ENCODING=BASE64", "TZID=/", "TZID=../x", "TZID=Europe", "VALUE=PERIOD",
          "VALUE=date", "RELATED=END", "TZID=" + "x" * 300, "TZID=/ics.py/2020.1/Europe", "X=\"a;b\",c",
          "TZID=\"C:d\"", "CN=^n^^"]
INSERTS = ["BEGIN:VEVENT|END:VEVENT", "BEGIN:VTODO|DURATION:PT1H|END:VTODO", "BEGIN:VALARM|END:VALARM",
           "BEGIN:VALARM|ACTION:DISPLAY|END:VALARM", "BEGIN:VCALENDAR|END:VCALENDAR", "BEGIN:X|END:X",
           "BEGIN:VTIMEZONE|TZID:B|END:VTIMEZONE", "BEGIN:STANDARD|END:STANDARD", "BEGIN:X", "END:X",
           "END:VEVENT", " folded", "UID:1", "DTSTAMP:20200101T000000Z", "VERSION:2.0", "",
           "BEGIN:SUMMARY|END:SUMMARY", "BEGIN:TZID|END:TZID", "RDATE:20220101T000000,20230101T000000"]


def cut(line):
    """head and value of a line"""
    m = re.match(r'((?:[^":]|"[^"]*")*):(.*)$', line, re.S)
    return (m[1], m[2]) if m else (line, None)


def tables(thorough):
    heads, vals = {}, {}

    def at(table, t):
        return table.setdefault(t, len(table) + 1)

    def ref(line):
        h, v = cut(line)
        if v is None:       # a line without a colon: the whole line is the head, its colon is not one
            h, v = line, ""
        return [at(heads, h), at(vals, v)]
    bases = [[ref(x) for x in b.split("\n")] for b in EXPLORED]
    anyvals = [at(vals, v) for v in VALS + (MORE if thorough else [])]
    anyheads = [at(heads, h) for h in HEADS]
    named = [at(vals, n) for n in COMPS + ["X-C", "STANDARD", "SUMMARY"]]
    inserts = [[ref(x) for x in b.split("|")] for b in INSERTS]
    needed = ["VERSION", "PRODID", "TZOFFSETFROM", "TZOFFSETTO", "ACTION"]
    return list(heads), list(vals), dict(
        names=names(), heads=[cps(h) for h in heads], vals=[cps(v) for v in vals], bases=bases,
        anyvals=anyvals, anyheads=anyheads, inserts=inserts, comps=named, needed=[cps(n) for n in needed])


# ------------------------------------------------------------------ the code

def plain(text):
    """no value that is known to be written otherwise: URIs and places"""
    text = re.sub("\r?\n[ \t]", "", text)
    for line in re.split("\r?\n|\r", text):
        h, v = cut(line)
        n = h.partition(";")[0].upper()
        if n == "GEO" and not re.fullmatch(r"-?\d{1,3}(\.\d{1,6})?;-?\d{1,3}(\.\d{1,6})?", v or ""):
            return False
        if n in ("URL", "ATTACH", "TZURL", "ORGANIZER", "ATTENDEE"):
            try:
                if urlparse(v or "").geturl() != v:
                    return False
            except ValueError:
                return False
    return True


def reading(text):
    import ics

    with ics.event.deterministic_event_data("gen", c13.gen_stamp()):
        return ics.Calendar(text)


def read_event(text):
    r = outcome(lambda: reading(text), lambda c: [c])
    no = {"ok": False, "exc": ""}
    ev = {"op": "read", "text": cps(text), "ok": r["ok"], "exc": r["exc"], "out": no, "again": no,
          "eq": False, "plain": plain(text)}
    if r["ok"]:
        c = r["res"][0]
        w = outcome(lambda: c.serialize())
        ev["out"] = {"ok": w["ok"], "exc": w["exc"]}
        if w["ok"]:
            a = outcome(lambda: reading(w["res"]), lambda c: [c])
            ev["again"] = {"ok": a["ok"], "exc": a["exc"]}
            if a["ok"]:
                e = outcome(lambda: bool(c == a["res"][0]))
                ev["eq"] = e["ok"] and e["res"]
    return ev


def parse_event(text):
    r = outcome(lambda: parse_text(text), lambda x: [])
    return {"op": "parse", "text": cps(text), "ok": r["ok"], "exc": r["exc"]}


# ------------------------------------------------------------------ replay

def doc_text(doc, heads, vals):
    return "".join(heads[h - 1] + ":" + vals[v - 1] + "\r\n" for h, v in doc)


def replay(args):
    heads, vals, rs = args
    core.setup_impl()
    bad = []
    for r in rs:
        if len(bad) >= 20:
            break
        text = doc_text(r["doc"], heads, vals)
        ev = read_event(text)
        k, what = r["k"], ""
        if not ev["ok"] and ev["exc"] not in ("ParseError", "ValueError"):
            what = "a text was rejected with the wrong kind of error"
        elif k == "ok" and not ev["ok"]:
            what = "a valid calendar was rejected"
        elif k == "bad" and ev["ok"]:
            what = "a text that is no valid calendar was read"
        elif ev["ok"] and not ev["out"]["ok"] and (k == "ok" or ev["out"]["exc"] != "ValueError"):
            what = "a calendar that was read could not be written"
        elif ev["ok"] and ev["out"]["ok"] and not ev["again"]["ok"]:
            what = "a calendar that was read and written could not be read again"
        elif ev["ok"] and ev["out"]["ok"] and ev["plain"] and not ev["eq"]:
            what = "a calendar that was read changes by writing and reading"
        if what:
            ev.pop("text")
            bad.append((what, text, k, ev))
    return bad


# ------------------------------------------------------------------ sessions

CHARS = [",", ";", ":", "\\", '"', "=", "\x01", "x", "0", "-", "T", "Z", " ", "\t", "\n", "\r", "\r\n ", "\u00e9",
         "\x0b", "\x85", "\u2028", "^"]
ALLNAMES = PROPS + COMPS + TZ_PROPS + ["STANDARD", "DAYLIGHT", "X-A", "CLASS", "TRANSP"]


def mutated(rng, text):
    ls = re.split("\r?\n", text)
    for _ in range(rng.choice([1, 1, 2, 3])):
        if not ls:
            break
        i = rng.randrange(len(ls))
        a, b = cut(ls[i])
        k = rng.randrange(11)
        j = rng.randrange(len(ls[i]) + 1)
        if k == 0:
            del ls[i]
        elif k == 1:
            ls.insert(i, rng.choice(ls))
        elif k == 2:
            ls[i] = a + ":" + rng.choice(VALS + MORE)
        elif k == 3:
            ls[i] = f"{a};{rng.choice(PARAMS)}:{b or ''}"
        elif k == 4:
            ls.insert(i, rng.choice(ALLNAMES) + rng.choice(["", ";" + rng.choice(PARAMS)]) + ":"
                      + rng.choice(VALS + MORE))
        elif k == 5:
            ls[i] = ls[i][:j] + rng.choice(CHARS) + ls[i][j:]
        elif k == 6:
            ls[i] = ls[i][:j] + ls[i][j + 1:]
        elif k == 7:
            n = rng.choice(ALLNAMES)
            ls.insert(i, "BEGIN:" + n)
            ls.insert(min(len(ls), i + rng.randrange(1, 4)), "END:" + n)
        elif k == 8:
            ls[i] = rng.choice(ALLNAMES) + ls[i][len(a.partition(";")[0]):]
        elif k == 9:       # one component, perhaps under another name
            begins = [n for n, x in enumerate(ls) if x.startswith("BEGIN:") and "END" + x[5:] in ls[n:]]
            if begins:
                n = rng.choice(begins)
                e = ls.index("END" + ls[n][5:], n)
                if rng.random() < 0.5:
                    new = rng.choice(COMPS + ["X-C", "STANDARD"])
                    ls[n], ls[e] = "BEGIN:" + new, "END:" + new
                if rng.random() < 0.5:
                    ls = ls[n:e + 1]
        else:
            ls[i] = rng.choice([ls[i].lower(), ls[i].swapcase(), ls[i][:j] + "\r\n " + ls[i][j:]])
    return rng.choice(["\r\n", "\r\n", "\n"]).join(ls) + rng.choice(["\r\n", "", "\n\n"])


def base_text(rng):
    if rng.random() < 0.6:
        return rng.choice(BASES)
    if rng.random() < 0.2:
        return cal(c22.as_text(rng, c22.definition(rng), True), EV % UTC).replace("\r\n", "\n")
    c = comps.dec(gen.rcomp(rng, "calendar", 0.2, 0.2))
    return c.serialize()


def session(args):
    rng = random.Random(args)
    steps = []
    for _ in range(3):
        r = outcome(lambda: base_text(rng))
        text = mutated(rng, r["res"] if r["ok"] else BASES[0])
        steps.append((read_event if rng.random() < 0.9 else parse_event)(text))
    if rng.random() < 0.1:
        text = "".join(rng.choice(CHARS + ["BEGIN:VCALENDAR", "END:VCALENDAR", "\r\n", "A:"])
                       for _ in range(rng.randrange(12)))
        steps += [read_event(text), parse_event(text)]
    return {"steps": steps}


def sessions(chunk):
    comps.init()
    core.setup_impl()
    return [session(a) for a in chunk]


def run(ctx):
    core.setup_impl()
    comps.init()
    heads, vals, head = tables(ctx.thorough)
    rs = ctx.explore("MC_Files", "Edits = 1\n Zones <- MCZones",
                     ["BasesOk", "Needed", "Paired", "Topmost", "Known", "Report"], header=comps.header(**head))
    jobs = [(heads, vals, c) for c in core.split(rs)]
    for what, text, k, ev in core.parallel(replay, jobs):
        ctx.mismatch(what, text=text, verdict=k, record=ev)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    logs = core.parallel(sessions, core.split([ctx.rng.random() for _ in range(ctx.pick(400, 6000))]))
    ctx.validate("FileTrace", logs, header=comps.header(names=names()), constants=" Zones <- TraceZones")
    ctx.assumptions += ["no timezone rules with more than an onset a day",
                        "writing again is compared where URIs and places are written as they are read"]
