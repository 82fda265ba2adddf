"""Generating texts of timezone definitions, and asking timezones."""
import datetime as D
import glob
import os
import random

from lib import core
from lib.core import cps, txt
from lib.texts import outcome

DAYS = "MO TU WE TH FR SA SU".split()


def wall(t):
    return D.datetime.fromordinal(t[0]) + D.timedelta(seconds=t[1])


def enc(dt):
    return [dt.toordinal(), dt.hour * 3600 + dt.minute * 60 + dt.second]


def stamp(dt):
    return f"{dt.year:04d}{dt:%m%dT%H%M%S}"


def off(n):
    a = abs(n)
    s = f"{'-' if n < 0 else '+'}{a // 3600:02d}{a % 3600 // 60:02d}"
    return s + (f"{a % 60:02d}" if a % 60 else "")


def month_days(y, m):
    return ((D.date(y + m // 12, m % 12 + 1, 1)) - D.date(y, m, 1)).days


def rule_day(rule, y):
    """the day of a generated rule in a year, or None"""
    m, kind, n, wd = rule["month"], rule["kind"], rule["n"], rule["wd"]
    dim = month_days(y, m)
    if kind == "fixed":
        return D.date(y, m, n) if n <= dim else None
    if kind == "mdneg":
        return D.date(y, m, dim + n + 1)
    hits = [d for d in range(1, dim + 1) if D.date(y, m, d).weekday() == wd]
    if kind == "from":
        hits = [d for d in hits if n <= d <= n + 6]
        return D.date(y, m, hits[0]) if hits else None
    try:
        return D.date(y, m, hits[n - 1 if n > 0 else n])
    except IndexError:
        return None


def rule_text(rule, rng):
    parts = [f"BYMONTH={rule['month']}"]
    day = DAYS[rule["wd"]]
    if rule["kind"] == "nth":
        n = rule["n"]
        parts.append(f"BYDAY={rng.choice(['+', '']) if n > 0 else ''}{n}{day}")
    elif rule["kind"] == "from":
        n = rule["n"]
        parts += [f"BYDAY={day}", "BYMONTHDAY=" + ",".join(str(n + i) for i in range(7))]
    elif rule["kind"] == "mdneg":
        parts.append(f"BYMONTHDAY={rule['n']}")
    elif rng.random() < 0.5:
        parts.append(f"BYMONTHDAY={rule['n']}")
    else:
        parts = []
    if rule.get("interval", 1) > 1 or rng.random() < 0.1:
        parts.append(f"INTERVAL={rule.get('interval', 1)}")
    if rule.get("until"):
        parts.append(f"UNTIL={rule['until']}")
    if rule.get("count"):
        parts.append(f"COUNT={rule['count']}")
    rng.shuffle(parts)
    return "RRULE:" + ";".join(["FREQ=YEARLY"] + parts)


def rrule(rng, months=range(1, 13)):
    kind = rng.choice(["nth", "nth", "nth", "from", "fixed", "mdneg"])
    n = {"nth": rng.choice([1, 2, 3, 4, -1, -1, -2]), "from": rng.choice([1, 2, 8, 15, 22]),
         "fixed": rng.choice([1, 15, 28, 30]), "mdneg": -rng.randrange(1, 28)}[kind]
    m = rng.choice(list(months))
    if kind == "from" and n == 22 and m == 2:
        n = 15
    return {"month": m, "kind": kind, "n": n, "wd": rng.randrange(7)}


def onsets(rule, y0, y1, sec):
    r = []
    for y in range(y0, y1 + 1):
        d = rule_day(rule, y)
        if d:
            r.append(D.datetime.combine(d, D.time()) + D.timedelta(seconds=sec))
    return r


def observance(rng, dst, frm, to, name, start, rule=None, rdates=(), on=()):
    dates = [*rdates, *on]
    ls = [f"DTSTART:{stamp(start)}", f"TZOFFSETFROM:{off(frm)}", f"TZOFFSETTO:{off(to)}"]
    if rule:
        ls.append(rule_text(rule, rng))
    rdates = list(rdates)
    while rdates:
        k = rng.randrange(1, len(rdates) + 1)
        ls.append("RDATE" + rng.choice(["", "", ";VALUE=DATE-TIME"]) + ":"
                  + ",".join(stamp(d) for d in rdates[:k]))
        rdates = rdates[k:]
    ex = [rng.choice([start, *dates]) for _ in range(rng.choice([0] * 8 + [1, 2]))]
    ex += [e + D.timedelta(seconds=1) for e in ex if rng.random() < 0.2]
    ls += ["EXDATE:" + stamp(e) for e in ex]
    if name is not None:
        ls.append("TZNAME:" + name)
    if rng.random() < 0.2:
        ls.append("X-NOTE:" + rng.choice(["a", "b"]))
    if rng.random() < 0.1:
        ls.append("COMMENT:summer")
    if rng.random() < 0.5:
        rng.shuffle(ls)
    k = "DAYLIGHT" if dst else "STANDARD"
    return [f"BEGIN:{k}"] + ls + [f"END:{k}"]


def vtimezone(rng, tzid, obs):
    ls = [[f"TZID:{tzid}"]] + obs
    if rng.random() < 0.3:
        ls.append(["LAST-MODIFIED:20200101T000000Z"])
    if rng.random() < 0.3:
        ls.append(["X-LIC-LOCATION:Some/Where"])
    if rng.random() < 0.3:
        rng.shuffle(ls)
    return "\r\n".join(["BEGIN:VTIMEZONE"] + [x for l in ls for x in l] + ["END:VTIMEZONE"])


STD = [0, 3600, -18000, -12600, 19800, 34200, 37800, 43200, -39600, -17776, 900, 46800]
SHIFT = [3600, 3600, 3600, 1800, 7200, -3600, 1200, 10800]


def alternating(rng, y0, years):
    """observances of a zone switching twice a year, in one or two eras"""
    std = rng.choice(STD)
    shift = rng.choice(SHIFT)
    m = rng.sample(range(1, 13), 2)
    while abs(m[0] - m[1]) in (0, 1, 11):
        m = rng.sample(range(1, 13), 2)
    obs, marks = [], []
    names = rng.choice([("A", "B"), ("CET", "CEST"), ("x", None), (None, None), ("a b", "c\\,d")])
    cut = y0 + rng.randrange(1, years) if years > 2 and rng.random() < 0.4 else None
    sec = rng.choice([0, 3600, 7200, 10800, 9000, 82800, 1])
    for a, b in ([(y0, cut), (cut + 1, None)] if cut else [(y0, None)]):
        for dst in (True, False):
            rule = rrule(rng, [m[0] if dst else m[1]])
            while a == y0 and rule["kind"] == "fixed" and rule["n"] == 30 and rule["month"] == 2:
                rule = rrule(rng, [rule["month"]])
            frm, to = (std, std + shift) if dst else (std + shift, std)
            on = onsets(rule, a, b or y0 + years, sec)
            if not on:
                return alternating(rng, y0, years)
            if b:
                how = rng.choice(["utc", "utc", "local", "count", "late"])
                last = on[-1]
                if how == "utc":
                    rule["until"] = stamp(last - D.timedelta(seconds=frm)) + "Z"
                elif how == "local":
                    rule["until"] = stamp(last)
                elif how == "late":
                    rule["until"] = stamp(last + D.timedelta(days=rng.randrange(1, 20))) + "Z"
                else:
                    rule["count"] = len(on)
            marks += [(o, frm, to) for o in on]
            obs.append(observance(rng, dst, frm, to, names[dst], on[0], rule, on=on))
    return obs, marks


def dated(rng, y0, years):
    """observances given by dates only"""
    std, shift = rng.choice(STD), rng.choice(SHIFT)
    t = D.datetime(y0, rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24))
    on = [t]
    for _ in range(rng.randrange(1, 7)):
        t = t + D.timedelta(days=rng.choice([0, 0, 1, rng.randrange(20, 400), 200, 100]),
                            hours=rng.randrange(1, 24))
        on.append(t)
    a, b = on[::2], on[1::2]
    obs = [observance(rng, True, std, std + shift, "D", a[0], None, a[rng.randrange(2):])]
    marks = [(o, std, std + shift) for o in a]
    if b:
        obs.append(observance(rng, False, std + shift, std, "S", b[0], None, b[1:]))
        marks += [(o, std + shift, std) for o in b]
    return obs, marks


def arbitrary(rng, y0, years):
    """observances that need not fit together"""
    obs, marks = [], []
    for i in range(rng.randrange(1, 5)):
        frm, to = rng.choice(STD), rng.choice(STD)
        if rng.random() < 0.5:
            to = frm + rng.choice(SHIFT) * rng.choice([1, -1])
        if abs(to - frm) >= 86400:        # not a DST amount for datetime
            to = frm
        a = y0 + rng.randrange(years)
        sec = rng.choice([0, 3600, 7200, 43199])
        if rng.random() < 0.6:
            rule = rrule(rng)
            rule["interval"] = rng.choice([1, 1, 2, 3, 4])
            on = []
            while not on:
                on = onsets(rule, a, a + 8, sec)[:1]
                rule = rule if on else rrule(rng)
            y = on[0].year
            if rng.random() < 0.4:
                rule["count"] = rng.randrange(1, 5)
            elif rng.random() < 0.4:
                rule["until"] = stamp(on[0] + D.timedelta(days=rng.randrange(3000))) + rng.choice(
                    ["", "Z"])
            on = onsets(rule, y, y0 + years, sec)[::rule.get("interval", 1)] or on
        else:
            rule, on = None, [D.datetime(a, rng.randrange(1, 13), rng.randrange(1, 28))
                              + D.timedelta(seconds=sec)]
        extra = []
        if rng.random() < 0.3:
            extra = [on[0] + D.timedelta(days=rng.randrange(700), hours=rng.randrange(24))
                     for _ in range(2)]
            extra += rng.choice([[], extra[:1], [extra[0] + D.timedelta(minutes=45)]])
        marks += [(o, frm, to) for o in on + extra]
        obs.append(observance(rng, rng.random() < 0.5, frm, to, rng.choice(["n", "m", None]),
                              on[0], rule, extra, on))
    return obs, marks


def constant(rng, y0, years):
    o = rng.choice(STD)
    t = D.datetime(y0, 1, 1)
    return [observance(rng, rng.random() < 0.2, o, o, "C", t)], [(t, o, o)]


def zone(rng, tzid):
    y0, years = rng.choice([1950, 1970, 1987, 2007, 2015, 1600]), rng.randrange(3, 25)
    kind = rng.choice([alternating] * 6 + [dated] * 2 + [arbitrary] * 3 + [constant])
    obs, marks = kind(rng, y0, years)
    if rng.random() < 0.5:
        rng.shuffle(obs)
    return vtimezone(rng, tzid, obs), marks


def near(rng, marks):
    """a wall time near an onset, mostly"""
    m, frm, to = rng.choice(marks)
    s = rng.choice([0, 0, -1, 1, to - frm, frm - to, (to - frm) // 2, (frm - to) // 2,
                    to - frm - 1, frm - to - 1, rng.randrange(-9000, 9000),
                    rng.randrange(-9000, 9000), rng.randrange(-86400 * 400, 86400 * 400)])
    t = m + D.timedelta(seconds=s)
    return enc(t)


def builtin_files():
    import ics_vtimezones

    root = os.path.join(os.path.dirname(ics_vtimezones.__file__), "data", "zoneinfo")
    return sorted((os.path.relpath(f, root)[:-4], f)
                  for f in glob.glob(os.path.join(root, "**", "*.ics"), recursive=True))


def calendar(rng, vtz, tzid):
    ev = ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20200101T000000Z",
          f"DTSTART;TZID={tzid}:20200601T000000", "END:VEVENT"]
    parts = [vtz.split("\r\n"), ev]
    if rng.random() < 0.3:
        parts.reverse()
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p"] + [x for p in parts for x in p]
                       + ["END:VCALENDAR"])


# ------------------------------------------------------------------ the code

def load(text):
    """a timezone of a text: a VTIMEZONE or a calendar with one event"""
    import ics
    from ics.contentline import string_to_container

    if text.startswith("BEGIN:VCALENDAR"):
        return ics.Calendar(text).events[0].begin.tzinfo
    c = string_to_container(text)
    return ics.Timezone.from_container(c)


def ask(tz, t, f):
    dt = wall(t).replace(fold=f, tzinfo=tz)

    def go():
        o, d, n = dt.utcoffset(), dt.dst(), dt.tzname()
        return {"off": round(o.total_seconds()), "dst": round(d.total_seconds()),
                "name": [] if n is None else [cps(n)]}
    r = outcome(go)
    return {"ok": r["ok"], "exc": r["exc"]} | (r["res"] if r["ok"] else {})


def to_utc(tz, t, f):
    dt = wall(t).replace(fold=f, tzinfo=tz)
    r = outcome(lambda: enc(dt.astimezone(D.timezone.utc)))
    return {"ok": r["ok"], "exc": r["exc"], "u": r["res"]}


def local(tz, u):
    dt = wall(u).replace(tzinfo=D.timezone.utc)

    def go():
        x = dt.astimezone(tz)
        return {"t": enc(x), "f": x.fold}
    r = outcome(go)
    return {"ok": r["ok"], "exc": r["exc"]} | (r["res"] if r["ok"] else {})
