"""C22: timezone definitions survive being read and written."""
import datetime as D
import random

from lib import core, zones
from lib.core import cps
from lib.texts import outcome

NAMES = ["A", "Europe/Berlin", "a,b;c\\", 'q"x', "\u00fc\U0001f600", "^n", "x y", "a:b", "=", "E'", "tab\tx"]
BASE = {"basetz": ["TZID:A"],
        "baseobs": ["DTSTART:20200329T020000", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200"]}
OBS = ["BEGIN:DAYLIGHT\r\nTZOFFSETTO;X-P=1:-0330\r\nTZOFFSETFROM:+0000\r\nRDATE:20210101T000000\r\n"
       "DTSTART:20210601T000000\r\nTZNAME:d\r\nEND:DAYLIGHT",
       "BEGIN:STANDARD\r\nTZOFFSETFROM:+053000\r\nTZOFFSETTO:-000130\r\nDTSTART:19000101T000000\r\n"
       "RRULE:FREQ=YEARLY;COUNT=3\r\nX-O:1\r\nEND:STANDARD"]
CAT = {"tz": ["TZURL:http://x/y,z;a", "TZURL;X-P=1:", "LAST-MODIFIED:20200101T000000Z",
              "LAST-MODIFIED;X-P=\"a,b\":20191231T235959Z", "LAST-MODIFIED:yesterday", "TZID:B",
              "X-LIC-LOCATION:E/B", "X-A;P=1,\"2;3\":v,w", "COMMENT:c", "DTSTART:20200101T000000",
              "BEGIN:X-C\r\nTZID:x\r\nBEGIN:STANDARD\r\nEND:STANDARD\r\nEND:X-C", *OBS,
              "BEGIN:STANDARD\r\nTZOFFSETFROM:+0000\r\nTZOFFSETTO:+0000\r\nEND:STANDARD"],
       "obs": ["TZNAME:CET", "TZNAME;LANGUAGE=de:a\\,b\\n", "TZNAME:a,b", "COMMENT;X-P=1:c\\;d", "COMMENT:",
               "RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU",
               "RRULE:FREQ=YEARLY;UNTIL=20250330T010000Z;BYMONTH=3;BYDAY=-1SU",
               "RRULE:freq=yearly;count=4;interval=2;bymonthday=29,-3;bymonth=3",
               "RRULE:FREQ=MONTHLY;WKST=SU;BYDAY=SU,MO,1TU;BYSETPOS=-1,1",
               "RRULE:FREQ=YEARLY;UNTIL=20250330T020000", "RRULE:FREQ=YEARLY;UNTIL=20250401",
               "RRULE:FREQ=YEARLY;UNTIL=99991231T235959Z",
               "RRULE:FREQ=WEEKLY;BYDAY=SU", "RRULE:FREQ=YEARLY;BYYEARDAY=-1,88;BYHOUR=2",
               "RRULE:FREQ=YEARLY;INTERVAL=0", "EXDATE:20210328T020000Z", "RRULE:FREQ=NEVER", "RRULE:", "RRULE:BYMONTH=3", "RRULE:FREQ=YEARLY;COUNT=x",
               "RDATE:20200329T020000", "RDATE:20210101T000000,20190101T120000",
               "RDATE;VALUE=DATE-TIME:20210101T000000", "EXDATE:20210328T020000", "EXDATE:20200329T020000", "RDATE:x",
               "DTSTART:20210101T000000", "TZOFFSETTO:+0300", "TZOFFSETFROM:-0430", "X-A;P=1:2",
               "X-A:", "BEGIN:X-B\r\nDTSTART:1\r\nEND:X-B", "SUMMARY:s", "RDATE:20220101T000000"]}


def text_of(r):
    lost = {(w, i) for w, i in r["drop"]}

    def kept(w):
        return [x for i, x in enumerate(BASE["base" + w]) if (w, i + 1) not in lost]

    def picked(w):
        return [CAT[w][p["i"] - 1] for p in r["pick"] if p["w"] == w]
    return "\r\n".join(["BEGIN:VTIMEZONE", *kept("tz"), "BEGIN:STANDARD", *kept("obs"), *picked("obs"),
                        "END:STANDARD", *picked("tz"), "END:VTIMEZONE"])


def parsed(text):
    import ics
    from ics.contentline import string_to_container

    c = string_to_container(text)
    while c.name == "VCALENDAR":
        c = next(x for x in c if x.name == "VTIMEZONE")
    return ics.Timezone.from_container(c)


def equal(a, b):
    """the same timezone, whichever is asked"""
    return bool(a == b) and bool(b == a) and not a != b and type(a) is type(b)


def in_calendar(tz):
    """a calendar using the zone, and the zone read back from it"""
    import ics

    b = D.datetime(2020, 1, 15, 12, tzinfo=tz)
    text = ics.Calendar(events=[ics.Event(uid="1", begin=b)]).serialize()
    return text, ics.Calendar(text).events[0].begin.tzinfo


def history(text, tz, rng, api=False):
    """read a text (or take a zone built like it), write it, read that, and so on"""
    r = outcome(lambda: tz() if tz else parsed(text), lambda z: [z])
    steps = [{"op": "read", "text": cps(text), "ok": r["ok"], "exc": r["exc"]}]
    if not r["ok"]:
        return {"steps": steps}
    cur = r["res"][0]
    for n in range(rng.choice([2, 2, 3])):
        if rng.random() < 0.3 and cur.observances and str(cur).upper() not in ("UTC", "ETC/UTC"):
            r = outcome(lambda: in_calendar(cur), lambda p: [p])
            text, back = r["res"][0] if r["ok"] else ("", None)
            steps.append({"op": "cal", "ok": r["ok"], "exc": r["exc"], "text": cps(text),
                          "eq": api or not r["ok"] or equal(cur, back)})
            if not r["ok"]:
                break
        r = outcome(lambda: cur.serialize())
        steps.append({"op": "write", "ok": r["ok"], "exc": r["exc"], "built": api,
                      "text": cps(r["res"]) if r["ok"] else []})
        if not r["ok"]:
            break
        text = r["res"]
        r = outcome(lambda: parsed(text), lambda z: [z])
        steps.append({"op": "again", "ok": r["ok"], "exc": r["exc"],
                      "eq": api or not r["ok"] or equal(cur, r["res"][0])})
        if not r["ok"]:
            break
        cur, api = r["res"][0], False
    return {"steps": steps}


def catalogue_case(chunk):
    core.setup_impl()
    rng = random.Random(len(chunk))
    return [history(text_of(r), None, rng) for r in chunk]


# ------------------------------------------------------------------ random

DAYS = zones.DAYS


def rule(rng, start):
    """a rule having its first occurrence at or after a time: its parts and that time"""
    import dateutil.rrule as rr

    freq = rng.choice(["YEARLY"] * 5 + ["MONTHLY", "WEEKLY", "DAILY"])
    p = {"FREQ": freq}
    if rng.random() < 0.3:
        p["INTERVAL"] = rng.choice([1, 2, 3, 4, 30])
    if rng.random() < 0.7:
        p["BYMONTH"] = sorted(rng.sample(range(1, 13), rng.choice([1, 1, 2])))
    k = rng.random()
    if k < 0.6:
        num = [0] if freq in ("WEEKLY", "DAILY") else [0, 1, 2, -1, -2]
        days = {(rng.choice(num), rng.randrange(7)) for _ in range(rng.choice([1, 1, 2]))}
        p["BYDAY"] = sorted(days)
    elif k < 0.8 and freq != "WEEKLY":
        p["BYMONTHDAY"] = sorted(rng.sample([*range(1, 29), *range(-28, 0)], rng.choice([1, 2, 7])))
    elif k < 0.85 and freq == "YEARLY":
        p["BYYEARDAY"] = sorted(rng.sample([*range(1, 366), *range(-365, 0)], 2))
        p.pop("BYMONTH", None)
    if "BYDAY" in p and freq in ("MONTHLY", "YEARLY") and rng.random() < 0.2:
        p["BYSETPOS"] = [rng.choice([1, -1])]
    if rng.random() < 0.2:
        p["WKST"] = rng.randrange(7)
    try:
        with core.limit(2):
            first = next(iter(rr.rrule(dtstart=start, **kwargs(p))), None)
    except core.Hang:
        first = None
    if first is None or first.year > 2100:
        return rule(rng, start)
    k = rng.random()
    if k < 0.25:
        p["COUNT"] = rng.randrange(1, 9)
    elif k < 0.55:
        p["UNTIL"] = first + D.timedelta(days=rng.choice([0, 1, 365, 3000]),
                                         seconds=rng.choice([0, 0, 3600, 86399]))
    return p, first


def kwargs(p):
    import dateutil.rrule as rr

    kw = {}
    for k, v in p.items():
        if k == "FREQ":
            kw["freq"] = getattr(rr, v)
        elif k == "BYDAY":
            kw["byweekday"] = [rr.weekday(d, n or None) for n, d in v]
        else:
            kw[k.lower()] = v
    return kw


def rule_text(rng, p, frm, forever):
    def one(k, v):
        if k == "UNTIL" and forever and rng.random() < 0.1:
            return "99991231T235959Z"
        if k == "UNTIL":
            return rng.choice([zones.stamp(v - D.timedelta(seconds=frm)) + "Z"] * 2 + [zones.stamp(v)])
        if k == "WKST":
            return DAYS[v]
        if k == "BYDAY":
            return ",".join((str(n) if n else "") + DAYS[d] for n, d in v)
        return ",".join(map(str, v)) if isinstance(v, list) else str(v)
    parts = [f"{k}={one(k, v)}" for k, v in p.items()]
    if rng.random() < 0.3:
        rng.shuffle(parts)
    return "RRULE:" + ";".join(parts)


def escape(t):
    for a, b in (("\\", "\\\\"), (";", "\\;"), (",", "\\,"), ("\n", "\\n"), ("\r", "\\r")):
        t = t.replace(a, b)
    return t


WORDS = ["CET", "", "a,b", "x;y\\", "two\nlines", "\u00fc", "long " * 30, " s ", "^n", "+03"]


def definition(rng):
    """a random definition"""
    obs = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        start = D.datetime(rng.choice([1970, 1996, 2020]), rng.randrange(1, 13), rng.randrange(1, 29),
                           rng.choice([0, 2, 3, 23]), rng.choice([0, 0, 30]))
        rules = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            if rules:
                p, first = rule(rng, start)
                if first != start:      # all rules share their first onset
                    p = dict(rules[0], COUNT=3)
                    p.pop("UNTIL", None)
            else:
                p, start = rule(rng, start)
            rules.append(p)
        dates = [start + D.timedelta(days=rng.randrange(1 if rules else -900, 900), hours=rng.randrange(24))
                 for _ in range(rng.choice([0, 0, 1, 3]))]
        ex = [start + D.timedelta(days=rng.choice([0, rng.randrange(1, 900), rng.randrange(1, 900)])) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        frm = rng.choice(zones.STD)
        obs.append({"dst": rng.random() < 0.5, "from": frm,
                    "to": rng.choice([n for n in zones.STD if abs(n - frm) < 86400]),
                    "start": start, "rules": rules, "dates": dates, "ex": ex,
                    "name": rng.choice([None, *WORDS]), "comment": rng.choice([None, None, None, *WORDS])})
    return {"id": rng.choice(NAMES), "obs": obs,
            "url": rng.choice([None, None, "http://x/y,z;a", "urn:x"]),
            "mod": rng.choice([None, None, D.datetime(2020, 1, 1, 12, 30, 1)])}


def obs_text(rng, o, extras):
    ls = [f"DTSTART:{zones.stamp(o['start'])}", f"TZOFFSETFROM:{zones.off(o['from'])}",
          f"TZOFFSETTO:{zones.off(o['to'])}"]
    ls += [rule_text(rng, p, o["from"], extras) for p in o["rules"]]
    for n, ds in (("RDATE", list(o["dates"])), ("EXDATE", list(o["ex"]))):
        while ds:
            k = rng.randrange(1, len(ds) + 1)
            ls.append(n + ":" + ",".join(zones.stamp(d) for d in ds[:k]))
            ds = ds[k:]
    for n, v in (("TZNAME", o["name"]), ("COMMENT", o["comment"])):
        if v is not None:
            ls.append(n + (rng.choice(["", "", ";LANGUAGE=de", ";X-P=\"a;b\",c"]) if extras else "")
                      + ":" + escape(v))
    if extras:
        ls += rng.choices(["X-A;P=1:2", "X-A:", "SUMMARY:x", "BEGIN:X-B\r\nTZNAME:x\r\nEND:X-B"],
                          k=rng.choice([0, 0, 1, 2]))
        ls[1] = ls[1].replace(":", rng.choice([":", ":", ";X-F=1:"]), 1)
        if rng.random() < 0.5:
            rng.shuffle(ls)
        if rng.random() < 0.04:
            ls.pop(rng.randrange(len(ls)))
        if rng.random() < 0.04:
            ls.append(rng.choice(ls))
    k = "DAYLIGHT" if o["dst"] else "STANDARD"
    return "\r\n".join([f"BEGIN:{k}", *ls, f"END:{k}"])


def as_text(rng, d, extras):
    ls = ["TZID" + (";X-T=1:" if extras and rng.random() < 0.2 else ":") + escape(d["id"])]
    ls += [obs_text(rng, o, extras) for o in d["obs"]]
    if d["url"]:
        ls.append("TZURL:" + d["url"])
    if d["mod"]:
        ls.append("LAST-MODIFIED:" + zones.stamp(d["mod"]) + "Z")
    if extras:
        ls += rng.choices(["X-LIC-LOCATION:a", "X-A;P=\"1,2\":v", "COMMENT:c",
                           "BEGIN:X-C\r\nTZID:x\r\nEND:X-C"], k=rng.choice([0, 0, 1, 2]))
        if rng.random() < 0.5:
            rng.shuffle(ls)
    return "\r\n".join(["BEGIN:VTIMEZONE", *ls, "END:VTIMEZONE"])


def built(d, pick=0):
    from urllib.parse import urlparse

    import dateutil.rrule as rr
    from ics.timezone import Timezone, TimezoneDaylightObservance, TimezoneStandardObservance

    obs = []
    for o in d["obs"]:
        s = rr.rruleset()
        for p in o["rules"]:
            s.rrule(rr.rrule(dtstart=o["start"], **kwargs(p)))
        for t in o["dates"] + ([] if o["rules"] else [o["start"]]):
            s.rdate(t)
        for t in o["ex"]:
            s.exdate(t)
        if len(o["rules"]) == 1 and not o["dates"] and not o["ex"] and pick % 2:
            s = s._rrule[0]
        cls = TimezoneDaylightObservance if o["dst"] else TimezoneStandardObservance
        obs.append(cls(D.timedelta(seconds=o["from"]), D.timedelta(seconds=o["to"]), s, o["name"],
                       o["comment"]))
    return Timezone(d["id"], obs, d["url"] and urlparse(d["url"]),
                    d["mod"] and d["mod"].replace(tzinfo=D.timezone.utc))


def session(args):
    seed, kind = args
    rng = random.Random(seed)
    if kind == "file":
        import ics

        name, f = rng.choice(zones.builtin_files())
        tz = (lambda: ics.Timezone.from_tzid(name)) if rng.random() < 0.5 else None
        return history(open(f).read(), tz, rng)
    d = definition(rng)
    if kind == "api":
        return history(as_text(rng, d, False), lambda: built(d, rng.randrange(2)), rng, api=True)
    return history(as_text(rng, d, True), None, rng)


def sessions(chunk):
    core.setup_impl()
    return [session(a) for a in chunk]


def run(ctx):
    core.setup_impl()
    head = {k: [cps(x) for x in v] for k, v in (BASE | CAT).items()}
    inv = ["RoundTrip", "Required", "KeepsItems", "SameMeaning", "Report"]
    rs = ctx.explore("MC_Vtimezones", f"Picks = {ctx.pick(2, 3)}", inv, header=head)
    few = [r for r in rs if len(r["pick"]) + len(r["drop"]) < 3]
    rest = [r for r in rs if len(r["pick"]) + len(r["drop"]) >= 3]
    rs = few + ctx.rng.sample(rest, min(12000, len(rest)))
    logs = core.parallel(catalogue_case, core.split(rs))
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), ["text", "text", "api", "file"][i % 4]) for i in range(ctx.pick(400, 3000))]
    logs += core.parallel(sessions, core.split(jobs))
    ctx.validate("VtzTrace", logs)
    ctx.assumptions += ["local DTSTART, RDATE and EXDATE date-times without extra parameters",
                        "no EXRULE", "rules built through the API start at their first onset"]
