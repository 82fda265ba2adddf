"""C15: written calendars define exactly the timezones they refer to, and
references are resolved by the calendar at hand, then by what is built in,
then by the system."""
import datetime as D
import random
import zoneinfo

from lib import core, zones
from lib.core import cps, txt
from lib.texts import outcome
from lib.zones import enc, stamp, wall

# built-in rules and the system agree on these, within YEARS
NAMED = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Asia/Tokyo", "Australia/Sydney",
         "Europe/Dublin", "America/Argentina/Buenos_Aires"]
YEARS = (2010, 2034)
WINDOWS = ["W. Europe Standard Time", "Eastern Standard Time", "Tokyo Standard Time",
           "AUS Eastern Standard Time", "India Standard Time"]
SYSTEM = ["Europe/Kyiv", "America/Ciudad_Juarez", "Pacific/Kanton"]
UNKNOWN = ["Nowhere", "Some Unknown Time", "/freeassociation/Mars/Base", "Europe/Atlantis", "x;y",
           "Berlin", "New_York", "Tokyo", "Sydney"]
OWN = ["X", "A", "B/c", "Europe/Berlin", "W. Europe Standard Time", "Europe/Kyiv", "Nowhere", "a b",
       "a,b", "C:d", "UTC"]
FIXED = [(3600, None), (-19800, None), (3600, "X"), (7200, "X"), (3600, "UTC"), (0, "X"),
         (5400, "Europe/Berlin"), (20700, "a b"), (-3600, "q,r"), (0, None)]


def quote(tzid):
    return f'"{tzid}"' if any(c in tzid for c in ",;:") else tzid


def esc(text):
    return text.replace("\\", "\\\\").replace(",", "\\,").replace(";", "\\;")


# ------------------------------------------------------------------ sources

class Odd(D.tzinfo):
    def utcoffset(self, dt):
        return D.timedelta(hours=3)

    def dst(self, dt):
        return D.timedelta(0)

    def tzname(self, dt):
        return "odd"


def changes(tz):
    """days near which a zone of the system changes its offset"""
    r, last = [], None
    t = D.datetime(YEARS[0] - 1, 12, 1)
    while t.year <= YEARS[1]:
        o = t.replace(tzinfo=tz).utcoffset()
        if last is not None and o != last:
            r.append(t)
        last = o
        t += D.timedelta(days=1)
    return r


CHANGES = {}


class Source:
    """a tzinfo with the kind of slots it makes"""

    def __init__(self, k, tz, marks=(), z=0, kind=""):
        self.k, self.tz, self.marks, self.z, self.kind = k, tz, marks, z, kind

    def wall(self, rng):
        for _ in range(1000):
            t = D.datetime(rng.randrange(YEARS[0], YEARS[1] + 1), rng.randrange(1, 13),
                           rng.randrange(1, 29), rng.randrange(24), rng.choice([0, 30, 59]),
                           rng.choice([0, 0, 59]))
            if self.z and self.marks and rng.random() < 0.7:      # near a change, not at it
                t = rng.choice(self.marks) + D.timedelta(
                    hours=rng.choice([-1, 1]) * rng.choice([31, 40, 80, 1000]))
            if 1500 < t.year <= YEARS[1] + 1 and all(abs(t - m) > D.timedelta(hours=30)
                                            for m in self.marks):
                return t
        return D.datetime(2020, 1, 20, 12)

    def slot(self, uid, p, t):
        off = 0
        if self.k not in ("float", "date", "utc") and not self.z:
            off = round(t.replace(tzinfo=self.tz).utcoffset().total_seconds())
        return {"uid": cps(uid), "p": cps(p), "k": self.k, "w": enc(t), "off": off, "z": self.z}


def named_marks(name):
    return CHANGES[name]


def named(rng):
    import dateutil.tz
    import ics

    name = rng.choice(NAMED)
    how = rng.randrange(4)
    tz = [zoneinfo.ZoneInfo, dateutil.tz.gettz, ics.Timezone.from_tzid,
          lambda n: ics.Timezone.from_tzinfo(zoneinfo.ZoneInfo(n))][how](name)
    s = Source("zone", tz, named_marks(name), 0, ["zoneinfo", "dateutil", "builtin", "frominfo"][how])
    return (s, zoneinfo.ZoneInfo(name))


def make_source(rng, defs):
    """defs: [(Timezone, marks, index)] made from definitions in this session"""
    import dateutil.tz
    from ics.timezone import UTC

    k = rng.random()
    if k < 0.35 and defs:
        tz, marks, z = rng.choice(defs)
        return Source("zone", tz.clone() if rng.random() < 0.2 else tz, marks, z, "definition")
    if k < 0.6:
        s, zi = named(rng)
        if not hasattr(s.tz, "observances"):
            return s
        # the offset as the system tells it
        src = Source("zone", s.tz, s.marks, 0, s.kind)
        src.slot = lambda uid, p, t: {
            "uid": cps(uid), "p": cps(p), "k": "zone", "w": enc(t), "z": 0,
            "off": round(t.replace(tzinfo=zi).utcoffset().total_seconds())}
        return src
    if k < 0.7:
        o, n = rng.choice(FIXED)
        o = D.timedelta(seconds=o)
        tz = D.timezone(o) if n is None else D.timezone(o, n)
        return Source("zone" if o else "utc", tz, (), 0, "fixed")
    if k < 0.8:
        tz = rng.choice([D.timezone.utc, dateutil.tz.UTC, dateutil.tz.tzutc(), UTC,
                         zoneinfo.ZoneInfo("UTC"), zoneinfo.ZoneInfo("Etc/UTC")])
        return Source("utc", tz, (), 0, "utc")
    if k < 0.9:
        return Source("float", None, (), 0, "floating")
    if k < 0.93:
        return Source("local", dateutil.tz.tzlocal(), CHANGES["local"], 0, "local")
    if k < 0.96:
        tz = rng.choice([Odd(), dateutil.tz.tzoffset("X", 3600), dateutil.tz.tzoffset(None, 7200),
                         zoneinfo.ZoneInfo("Europe/Kyiv"), dateutil.tz.gettz("Pacific/Kanton")])
        marks = CHANGES["Europe/Kyiv"] if "Kyiv" in str(tz) else ()
        return Source("odd", tz, marks, 0, "odd")
    return Source("date", None, (), 0, "date")


# ------------------------------------------------------------------ entries

def ends(e):
    """does an entry have an end of its own"""
    import ics

    return e.has_explicit_due if isinstance(e, ics.Todo) else e.has_explicit_end


def put(rng, cal, uid, sources):
    """a new event or todo in a calendar, and its slots"""
    import ics
    from ics.alarm import DisplayAlarm

    a, b, c = (rng.choice(sources) for _ in range(3))
    if a.k == "date" or b.k == "date":
        a = b = Source("date", None)
    if a.k != b.k and {"float", "local"} & {a.k, b.k}:
        b = a
    ta = a.wall(rng)
    slots = []

    def at(s, t):
        return t.replace(tzinfo=s.tz)
    todo = rng.random() < 0.4
    if a.k == "date":
        ta = D.datetime(ta.year, ta.month, ta.day)
        e = (ics.Todo if todo else ics.Event)(uid=uid, begin=ta)
        e.make_all_day()
        slots.append(a.slot(uid, "DTSTART", ta))
        if rng.random() < 0.5:
            tb = ta + D.timedelta(days=rng.randrange(1, 40))
            setattr(e, "due" if todo else "end", tb)
        else:
            tb = ta + D.timedelta(days=1) if ends(e) else None
        if tb is not None:
            slots.append(a.slot(uid, "DUE" if todo else "DTEND", tb))
    else:
        e = (ics.Todo if todo else ics.Event)(uid=uid)
        begin = not todo or rng.random() < 0.7
        if begin:
            e.begin = at(a, ta)
            slots.append(a.slot(uid, "DTSTART", ta))
        if rng.random() < 0.7 or not begin:
            # behind the begin, whatever the offsets
            for _ in range(50):
                tb = b.wall(rng)
                if not begin or tb >= ta + D.timedelta(days=3):
                    break
            else:
                b, tb = a, ta
            setattr(e, "due" if todo else "end", at(b, tb))
            slots.append(b.slot(uid, "DUE" if todo else "DTEND", tb))
    if rng.random() < 0.3 and c.k in ("zone", "utc", "odd"):
        tc = c.wall(rng)
        e.alarms.append(DisplayAlarm(at(c, tc)))
        slots.append(c.slot(uid, "TRIGGER", tc))
    (cal.todos if todo else cal.events).append(e)
    return e, slots


def entries_of(cal):
    return list(cal.events) + list(cal.todos)


def seen(cal):
    """the dates and times of a calendar as its user sees them"""
    import ics

    r = []

    def note(uid, p, v, date):
        if v is None:
            return
        o = {"uid": cps(uid or ""), "p": cps(p), "w": enc(v), "off": 0}
        if date:
            o["k"] = "date"
        elif v.tzinfo is None:
            o["k"] = "float"
        else:
            o["k"] = "inst"
            o["off"] = round(v.utcoffset().total_seconds())
        r.append(o)
    for e in entries_of(cal):
        todo = isinstance(e, ics.Todo)
        note(e.uid, "DTSTART", e.begin, e.all_day)
        if ends(e):
            note(e.uid, "DUE" if todo else "DTEND", e.due if todo else e.end, e.all_day)
        for a in e.alarms:
            if isinstance(a.trigger, D.datetime):
                note(e.uid, "TRIGGER", a.trigger, False)
    return r


def sys_offsets(text):
    """what the system says about its own zones, for the times of a text"""
    import re

    r = []
    for m in re.finditer(r"TZID=([^:;\"]+|\"[^\"]*\")[^:]*:(\d{8}T\d{6})",
                         text.replace("\r\n ", "").replace("\n ", "")):
        name = m.group(1).strip('"')
        if name in SYSTEM:
            t = D.datetime.strptime(m.group(2), "%Y%m%dT%H%M%S")
            o = t.replace(tzinfo=zoneinfo.ZoneInfo(name)).utcoffset()
            x = {"id": cps(name), "w": enc(t), "off": round(o.total_seconds())}
            if x not in r:
                r.append(x)
    return r


class World:
    def __init__(self):
        self.cals, self.steps, self.zs, self.defs, self.n = [], [], [], [], 0

    def uid(self):
        self.n += 1
        return f"u{self.n}"

    def zone(self, text, marks):
        r = outcome(lambda: zones.load(text))
        self.steps.append({"op": "zone", "text": cps(text), "ok": r["ok"], "exc": r["exc"]})
        if not r["ok"]:
            return None
        self.zs.append(r["res"])
        self.defs.append((r["res"], marks, len(self.zs)))
        return self.defs[-1]

    def new(self):
        import ics

        self.cals.append(ics.Calendar())
        self.steps.append({"op": "new"})
        return len(self.cals) - 1

    def put(self, rng, c, sources):
        r = outcome(lambda: put(rng, self.cals[c], self.uid(), sources)[1])
        self.steps.append({"op": "put", "c": c + 1, "slots": r["res"], "ok": r["ok"],
                           "exc": r["exc"]})
        return r["ok"]

    def drop(self, c, e):
        cal = self.cals[c]
        for l in (cal.events, cal.todos):
            l[:] = [x for x in l if x is not e]
        self.steps.append({"op": "drop", "c": c + 1, "uid": cps(e.uid)})

    def share(self, c, to, e):
        import ics

        if any(x.uid == e.uid for x in entries_of(self.cals[to])):
            return
        (self.cals[to].todos if isinstance(e, ics.Todo) else self.cals[to].events).append(e)
        self.steps.append({"op": "share", "c": c + 1, "to": to + 1, "uid": cps(e.uid)})

    def write(self, c):
        r = outcome(lambda: self.cals[c].serialize())
        self.steps.append({"op": "write", "c": c + 1, "ok": r["ok"], "exc": r["exc"],
                           "text": cps(r["res"]) if r["ok"] else []})
        return r["res"] if r["ok"] else None

    def read(self, text):
        import ics

        r = outcome(lambda: ics.Calendar(text))
        cal = r["res"] if r["ok"] else ics.Calendar()
        o = outcome(lambda: seen(cal))
        if not o["ok"]:
            r = o
        self.cals.append(cal)
        self.steps.append({"op": "read", "text": cps(text), "ok": r["ok"], "exc": r["exc"],
                           "obs": o["res"], "sys": sys_offsets(text)})
        return len(self.cals) - 1


# --------------------------------------------------------------- model plans

MODEL = {}


def model_zone(tzid, n):
    """d1..d4: definitions told apart by their offsets"""
    std = {1: "+0100", 2: "+0530", 3: "-0800", 4: "+0300"}[n]
    dst = {1: "+0200", 2: "+0630", 3: "-0700", 4: "+0300"}[n]
    ls = ["BEGIN:VTIMEZONE", f"TZID:{esc(tzid)}", "BEGIN:STANDARD", "DTSTART:20101031T030000",
          f"TZOFFSETFROM:{dst}", f"TZOFFSETTO:{std}", "RRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU",
          "END:STANDARD"]
    if n < 4:
        ls += ["BEGIN:DAYLIGHT", "DTSTART:20100328T020000", f"TZOFFSETFROM:{std}",
               f"TZOFFSETTO:{dst}", "RRULE:FREQ=YEARLY;BYMONTH=3;BYDAY=-1SU", "END:DAYLIGHT"]
    return "\r\n".join(ls + ["END:VTIMEZONE"])


IDS = {"X": "X", "Berlin": "Europe/Berlin", "Windows": "W. Europe Standard Time",
       "system": "Europe/Kyiv", "unknown": "Nowhere", "part": "Berlin"}
ITEMS = [("zone", "X", 1), ("zone", "X", 2), ("zone", "Berlin", 1), ("zone", "Windows", 4),
         ("entry", "X"), ("entry", "Berlin"), ("entry", "Windows"), ("entry", "system"),
         ("entry", "unknown"), ("entry", "utc"), ("entry", "float"), ("entry", "part")]
TIMES = [D.datetime(2020, 1, 15, 12), D.datetime(2020, 7, 15, 1, 30), D.datetime(2021, 12, 31, 23, 59)]


def model_file(plan):
    ls = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p"]
    for n, k in enumerate(plan):
        it = ITEMS[k - 1]
        if it[0] == "zone":
            ls += model_zone(IDS[it[1]], it[2]).split("\r\n")
            continue
        tz = f";TZID={IDS[it[1]]}" if it[1] in IDS else ""
        t = stamp(TIMES[n % 3]) + ("Z" if it[1] == "utc" else "")
        kind = "VTODO" if n % 2 else "VEVENT"
        ls += [f"BEGIN:{kind}", f"UID:{n}", "DTSTAMP:20200101T000000Z", f"DTSTART{tz}:{t}",
               f"END:{kind}"]
    return "\r\n".join(ls + ["END:VCALENDAR"])


def run_files(chunk):
    """several files read one after another in one process"""
    core.setup_impl()
    out = []
    for i in range(0, len(chunk), 25):
        w = World()
        for plan in chunk[i:i + 25]:
            text = model_file(plan)
            c = w.read(text)
            if w.steps[-1]["ok"] and "TZID=Europe/Kyiv" not in text:
                t = w.write(c)
                if t is not None and len(plan) > 2:
                    w.read(t)
        out.append({"steps": w.steps})
    return out


def model_sources(w):
    zs = [w.zone(model_zone("X", 1), ()), w.zone(model_zone("X", 2), ()),
          w.zone(model_zone("X (2)", 4), ())]
    if None in zs:
        return None
    return ([Source("zone", z[0], (), z[2]) for z in zs]
            + [Source("zone", D.timezone(D.timedelta(hours=h), "X")) for h in (-8, 7)]
            + [Source("zone", zoneinfo.ZoneInfo("Europe/Berlin")),
               Source("utc", D.timezone.utc), Source("float", None)])


def run_plans(chunk):
    import ics

    core.setup_impl()
    out = []
    for i in range(0, len(chunk), 8):
        w = World()
        src = model_sources(w)
        if src is None:
            return [{"steps": w.steps}]
        for plan in chunk[i:i + 8]:
            cur = [w.new(), w.new()]
            order = [[], []]
            for n, (op, c, k) in enumerate(plan):
                c -= 1
                if op == "put":
                    s = src[k - 1]
                    if n % 2:
                        e = ics.Todo(uid=w.uid(), due=TIMES[n % 3].replace(tzinfo=s.tz))
                        w.cals[cur[c]].todos.append(e)
                        p = "DUE"
                    else:
                        e = ics.Event(uid=w.uid(), begin=TIMES[n % 3].replace(tzinfo=s.tz))
                        w.cals[cur[c]].events.append(e)
                        p = "DTSTART"
                    order[c].append(e)
                    w.steps.append({"op": "put", "c": cur[c] + 1, "ok": True, "exc": "",
                                    "slots": [s.slot(e.uid, p, TIMES[n % 3])]})
                elif op == "share":
                    w.share(cur[c], cur[1 - c], order[c][0])
                    order[1 - c].append(order[c][0])
                elif op == "drop":
                    w.drop(cur[c], order[c].pop(0))
                else:
                    t = w.write(cur[c])
                    if t is not None:
                        cur[c] = w.read(t)
                        if not w.steps[-1]["ok"]:
                            return out + [{"steps": w.steps}]
                        by = {e.uid: e for e in entries_of(w.cals[cur[c]])}
                        order[c] = [by[e.uid] for e in order[c] if e.uid in by]
            for c in (0, 1):
                if order[c]:
                    t = w.write(cur[c])
                    if t is not None and c == 0:
                        w.write(w.read(t))
        out.append({"steps": w.steps})
    return out


# ------------------------------------------------------------------ sessions

def zone_for(rng, tzid):
    y0 = rng.choice([1970, 2004, 2007, 2015])
    kind = rng.choice([zones.alternating] * 4 + [zones.dated, zones.constant])
    obs, marks = kind(rng, y0, YEARS[1] + 4 - y0)
    if rng.random() < 0.5:
        rng.shuffle(obs)
    return zones.vtimezone(rng, esc(tzid), obs), [m for m, _, _ in marks]


def random_file(rng, extras):
    """a calendar text with definitions and references in any order"""
    ids = rng.sample(OWN, rng.randrange(0, 4))
    parts, near = [], {}
    for tzid in ids:
        v, marks = zone_for(rng, tzid)
        near[tzid] = marks
        parts.append(v.split("\r\n"))
    refs = ids * 3 + rng.sample(NAMED + ["UTC"], 2) + [rng.choice(WINDOWS)]
    if rng.random() < 0.25:
        refs.append(rng.choice(SYSTEM))
    if rng.random() < 0.2:
        refs.append(rng.choice(UNKNOWN))
    if rng.random() < 0.15:              # like one of them, but not it
        refs += ["Europe/Berlin", "Berlin"]
    if rng.random() < 0.2:
        refs.append("/ics.py/2020.1/" + rng.choice(NAMED))

    def value(prop, kinds=("tz", "tz", "utc", "float"), ref=None):
        k = "tz" if ref else rng.choice(kinds)
        ref = ref or rng.choice(refs)
        base = WINMAP.get(ref, ref).replace("/ics.py/2020.1/", "")
        marks = near[ref] if ref in near else CHANGES.get(base, ())
        src = Source("zone", None, marks if k == "tz" else ())
        src.z = 1 if ref in near else 0
        t = stamp(src.wall(rng))
        ps = []
        if prop == "TRIGGER" or rng.random() < 0.1:
            ps.append("VALUE=DATE-TIME")
        if k == "tz":
            ps.append("TZID=" + (quote(ref) if rng.random() < 0.9 else f'"{ref}"'))
        if rng.random() < 0.1:
            ps.append("X-P=1")
        rng.shuffle(ps)
        return prop + "".join(";" + p for p in ps) + ":" + t + ("Z" if k == "utc" else ""), ref
    for n in range(rng.randrange(1, 5)):
        todo = rng.random() < 0.4
        kind = "VTODO" if todo else "VEVENT"
        ls = []
        if rng.random() < 0.2:
            d = D.date(2020, 1, 1) + D.timedelta(days=rng.randrange(3000))
            ls.append(f"DTSTART;VALUE=DATE:{d:%Y%m%d}")
            if rng.random() < 0.5:
                d += D.timedelta(days=rng.randrange(1, 9))
                ls.append(f"{'DUE' if todo else 'DTEND'};VALUE=DATE:{d:%Y%m%d}")
        else:
            ref = None
            if not todo or rng.random() < 0.5:
                l, ref = value("DTSTART")
                ls.append(l)
                # (a zone called UTC is written as UTC: the recorded finding again)
                if extras and "TZID=" in l and ref in near and ref.upper() not in ("UTC", "ETC/UTC"):
                    ls.append(f"EXDATE;TZID={quote(ref)}:20200101T000000")
            if todo and (not ls or rng.random() < 0.3) and not ref:
                ls.append(value("DUE")[0])
        if rng.random() < 0.3:
            ls += ["BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:x",
                   value("TRIGGER", ("tz", "utc"))[0], "END:VALARM"]
        else:
            ls.append("X-Y;TZIDX=a:1")
        parts.append([f"BEGIN:{kind}", f"UID:r{n}", "DTSTAMP:20200101T000000Z", *ls, f"END:{kind}"])
    rng.shuffle(parts)
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p"] + [x for p in parts for x in p]
                       + ["END:VCALENDAR"])


WINMAP = {}


def session(args):
    seed, n, local = args
    rng = random.Random(seed)
    core.set_local_tz(local)
    CHANGES["local"] = CHANGES[local]
    w = World()
    ids = [rng.choice(OWN) for _ in range(rng.randrange(1, 4))]
    for _ in range(rng.randrange(1, 5)):
        v, marks = zone_for(rng, rng.choice(ids))
        if w.zone(v, marks) is None:
            return {"steps": w.steps}
    sources = [make_source(rng, w.defs) for _ in range(rng.randrange(2, 7))]
    w.new()
    pinned = set()              # read with lines that refer to timezones: left alone
    for _ in range(n):
        op = rng.choice(["put"] * 5 + ["new", "drop", "share", "write", "write", "again", "file"])
        live = [i for i in range(len(w.cals)) if i not in pinned]
        c = rng.choice(live)
        es = entries_of(w.cals[c])
        if op == "put":
            if not w.put(rng, c, sources):
                break
        elif op == "new":
            w.new()
        elif op == "drop" and es:
            w.drop(c, rng.choice(es))
        elif op == "share" and es and len(live) > 1:
            w.share(c, rng.choice([i for i in live if i != c]), rng.choice(es))
        elif op == "write":
            w.write(c)
        elif op == "again" and es:
            t = w.write(c)
            if t is not None:
                w.read(t)
        elif op == "file":
            extras = rng.random() < 0.3
            text = random_file(rng, extras)
            c = w.read(text)
            if not w.steps[-1]["ok"]:
                pinned.add(c)
            elif any(s in text for s in SYSTEM):
                pinned.add(c)
            else:
                if extras:
                    pinned.add(c)
                w.write(c)
    return {"steps": w.steps}


def sessions(chunk):
    core.setup_impl()
    return [session(a) for a in chunk]


DANGLING = "\r\n".join([
    "BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:p", model_zone("Foo", 1), "BEGIN:VEVENT", "UID:1",
    "DTSTAMP:20200101T000000Z", "DTSTART:20200115T110000Z",
    "RECURRENCE-ID;TZID=Foo:20200115T120000", "END:VEVENT", "END:VCALENDAR"])


def dangling(_):
    """the recorded finding: a TZID on a property the library does not know"""
    core.setup_impl()
    w = World()
    w.write(w.read(DANGLING))
    return [{"steps": w.steps, "finding": "dangling"}]


def key(session, pos, clause):
    if session.get("finding") == "dangling" and clause.startswith("a TZID is written"):
        return "dangling-tzid-of-unknown-property"
    return clause


def header():
    import ics_vtimezones

    fs = dict(zones.builtin_files())
    need = sorted(set(NAMED) | {"UTC"} | set(WINMAP.values()))
    texts = {}
    for n in need:
        texts[n] = text = open(fs[n]).read()
        texts[text.split("TZID:")[1].split()[0]] = text
    return {"builtin": [{"id": cps(n), "text": cps(t)} for n, t in texts.items()],
            "windows": [{"id": cps(k), "to": cps(v)} for k, v in WINMAP.items()],
            "system": [cps(s) for s in SYSTEM]}


CONST = " BuiltinIds <- TraceBuiltinIds\n BuiltinDef <- TraceBuiltinDef\n Windows <- TraceWindows\n Known <- TraceKnown\n"
LOCALS = ["America/New_York", "Asia/Kolkata", "Europe/Berlin"]


def prepare():
    import ics_vtimezones

    for n in NAMED + SYSTEM:
        CHANGES[n] = changes(zoneinfo.ZoneInfo(n))
    for n in WINDOWS:
        WINMAP[n] = ics_vtimezones.windows_to_olson(n)
        CHANGES.setdefault(WINMAP[n], changes(zoneinfo.ZoneInfo(WINMAP[n])))


def run(ctx):
    core.setup_impl()
    prepare()
    plans = ctx.explore("MC_TzRefs", f'Mode = "plans"\n MaxLen = {ctx.pick(3, 4)}',
                        ["Closed", "Survives", "Settled", "Report"])
    files = ctx.explore("MC_TzRefs", f'Mode = "files"\n MaxLen = {ctx.pick(3, 4)}',
                        ["OrderIrrelevant", "Report"])
    ctx.rng.shuffle(plans)
    ctx.rng.shuffle(files)
    plans = plans[:ctx.pick(900, 6000)]
    files = files[:ctx.pick(1500, 8000)]
    logs = core.parallel(run_plans, core.split(plans)) + core.parallel(run_files, core.split(files))
    ctx.cov["replayed_model_behaviours"] += len(plans) + len(files)
    jobs = [(ctx.rng.random(), 14, LOCALS[i % 3]) for i in range(ctx.pick(120, 2000))]
    logs += core.parallel(sessions, core.split(jobs))
    logs += core.parallel(dangling, [[0]])
    ctx.validate("TzTrace", logs, CONST, header=header(), key=key)
    ctx.assumptions += ["times away from repeated and skipped hours",
                        f"named zones between {YEARS[0]} and {YEARS[1]}, where built-in and system "
                        "definitions agree"]
