"""Calendars, events, todos and alarms as plain data (see spec/Components.tla)."""
import datetime as dtm
import re

from lib import entries as en
from lib.core import cps, txt

NAMES = {"Europe/Berlin": "ics", "America/New_York": "ics"}
ENTRY = ["timespan", "summary", "uid", "description", "location", "url", "status",
         "created", "last_modified", "dtstamp", "alarms", "attach"]
ALARM = ["trigger", "repeat", "duration"]
ATTRS = {
    "event": ENTRY + ["classification", "transparent", "organizer", "geo", "attendees",
                      "categories"],
    "todo": ENTRY + ["percent", "priority", "completed"],
    "calendar": ["version", "prodid", "scale", "method", "events", "todos"],
    "audio": ALARM + ["attach"], "custom": ALARM + ["action"],
    "display": ALARM + ["description"],
    "email": ALARM + ["summary", "description", "attendees", "attach"], "none": ALARM}
LISTS = {("event", "alarms"), ("event", "attach"), ("event", "attendees"),
         ("event", "categories"), ("todo", "alarms"), ("todo", "attach"),
         ("calendar", "events"), ("calendar", "todos"), ("email", "attendees"),
         ("email", "attach")}
ALARMS = ["audio", "custom", "display", "email", "none"]
TZS = {}


def classes():
    import ics

    return {"event": ics.Event, "todo": ics.Todo, "calendar": ics.Calendar,
            "audio": ics.AudioAlarm, "custom": ics.CustomAlarm, "display": ics.DisplayAlarm,
            "email": ics.EmailAlarm, "none": ics.NoneAlarm}


def init():
    import dateutil.tz
    import zoneinfo

    import ics
    from ics.timezone import Timezone

    if TZS:
        return
    TZS["UTC"] = [dateutil.tz.UTC, dtm.timezone.utc, zoneinfo.ZoneInfo("UTC"), ics.timezone.UTC]
    for n in NAMES:
        TZS[n] = [Timezone.from_tzid(n), zoneinfo.ZoneInfo(n), dateutil.tz.gettz(n)]


_Z = {}


def zones():
    """offset tables of the zones, from the system tz database"""
    if not _Z:
        _Z.update({"UTC": [0]})
        for n in NAMES:
            _Z[n] = en.zone_table(n)
    return _Z


def header(**k):
    return {"zones": zones(), **k}


def canonical(tzid):
    return re.sub("^/ics.py/[^/]*/", "", tzid)


def zone_name(tz):
    from ics.timezone import is_utc

    if tz is None:
        return ""
    if is_utc(tz):
        return "UTC"
    if hasattr(tz, "tzid"):
        return canonical(tz.tzid)
    if hasattr(tz, "key"):
        return tz.key
    f = getattr(tz, "_filename", None)
    return re.sub("^.*zoneinfo/", "", f) if f else f"?{tz!r}"


def enc_dt(v):
    if not isinstance(v, dtm.datetime):
        return {"w": [0, 0], "f": 0, "z": f"?{type(v).__name__}"}
    fold = 0
    if v.fold and v.tzinfo is not None and v.utcoffset() != v.replace(fold=0).utcoffset():
        fold = 1
    return {"w": en.enc_naive(v), "f": fold,
            "z": zone_name(v.tzinfo) if not v.microsecond else f"?us{v.microsecond}"}


def dec_dt(v, pick=0):
    d = dtm.datetime.fromordinal(v["w"][0]) + dtm.timedelta(seconds=v["w"][1])
    z = TZS[v["z"]] if v["z"] else [None]
    return d.replace(tzinfo=z[pick % len(z)], fold=v["f"])


def enc_params(ps):
    return [{"n": k, "vals": [canonical(str(v)) if k == "TZID" else str(v) for v in vs]}
            for k, vs in sorted(ps.items())]


def dec_params(ps):
    return {p["n"]: list(p["vals"]) for p in ps}


def enc_url(u):
    return cps(u if isinstance(u, str) else u.geturl())


def enc_span(ts, kind):
    from ics import Timespan

    if not isinstance(ts, Timespan):
        return {"k": f"?{type(ts).__name__}", "b": [], "e": [], "d": [], "day": False}
    rep = en.rep_of(ts.get_end_representation())
    b = ts.get_begin()
    return {"k": kind, "b": [] if b is None else [enc_dt(b)],
            "e": [enc_dt(ts.get_effective_end())] if rep == "end" else [],
            "d": en.enc_td(ts.get_effective_duration()) if rep == "duration" else [],
            "day": bool(ts.is_all_day())}


def cls_of(c):
    for k, t in classes().items():
        if type(c) is t:
            return k
    for k, t in classes().items():
        if isinstance(c, t):
            return k
    return f"?{type(c).__name__}"


def enc_val(v, cls=None):
    from urllib.parse import ParseResult

    from ics import Timespan
    from ics.attendee import Person
    from ics.component import Component
    from ics.geo import Geo

    if isinstance(v, str):
        return {"text": cps(v)}
    if isinstance(v, ParseResult):
        return {"uri": enc_url(v)}
    if isinstance(v, bool):
        return {"bool": v}
    if isinstance(v, int):
        return {"int": v}
    if isinstance(v, (bytes, bytearray)):
        return {"bytes": list(v)}
    if isinstance(v, dtm.datetime):
        return {"dt": enc_dt(v)}
    if isinstance(v, dtm.timedelta) and not v.microseconds:
        return {"dur": [v.days, v.seconds]}
    if isinstance(v, Geo):
        return {"geo": [round(v[0] * 1000000), round(v[1] * 1000000)]}
    if isinstance(v, Person):
        return {"person": {"e": enc_url(v.email), "x": enc_params(v.extra)}}
    if isinstance(v, Timespan):
        return {"span": enc_span(v, cls)}
    if isinstance(v, Component):
        return {"comp": enc(v)}
    return {"other": repr(v)}


def enc_attr(c, cls, n):
    v = getattr(c, n)
    if (cls, n) in LISTS:
        if not isinstance(v, list):
            return [{"other": repr(v)}]
        return [enc_val(i, cls) for i in v]
    return [] if v is None else [enc_val(v, cls)]


def enc(c, params=False):
    """the observable value of a component"""
    cls = cls_of(c)
    r = {"cls": cls, "a": {n: enc_attr(c, cls, n) for n in ATTRS[cls]},
         "x": items(c.extra), "p": []}
    if params:
        for k, v in sorted(c.extra_params.items()):
            vs = v if isinstance(v, list) else [v]
            r["p"].append({"key": k,
                           "ps": [enc_params({a: b for a, b in q.items() if a != "__merge_next"})
                                  for q in vs],
                           "ms": [q.get("__merge_next") == ["TRUE"] for q in vs]})
    return r


def items(xs):
    from ics.contentline import Container

    return [{"t": "comp", "n": i.name, "items": items(i)} if isinstance(i, Container) else
            {"t": "line", "n": i.name, "ps": enc_params(i.params), "v": cps(i.value)}
            for i in xs]


def dec_item(x):
    from ics.contentline import Container, ContentLine

    if x["t"] == "comp":
        return Container(x["n"], [dec_item(i) for i in x["items"]])
    return ContentLine(x["n"], dec_params(x["ps"]), txt(x["v"]))


def dec_val(v, cls, n, pick=0, asstr=False):
    from urllib.parse import urlparse

    from ics import Attendee, EventTimespan, Organizer, TodoTimespan
    from ics.geo import Geo

    (k, x), = v.items()
    if k == "text":
        return txt(x)
    if k == "uri":
        return urlparse(txt(x))
    if k in ("int", "bool"):
        return x
    if k == "bytes":
        return bytes(x)
    if k == "dt":
        return dec_dt(x, pick)
    if k == "dur":
        return dtm.timedelta(*x)
    if k == "geo":
        return Geo(x[0] / 1000000, x[1] / 1000000)
    if k == "person":
        T = Organizer if n == "organizer" else Attendee
        e = txt(x["e"])
        return T(e if asstr else urlparse(e), extra=dec_params(x["x"]))
    if k == "span":
        T = EventTimespan if cls == "event" else TodoTimespan
        return T(*[dec_dt(x[f][0], pick) if x[f] else None for f in "be"],
                 dtm.timedelta(*x["d"][0]) if x["d"] else None,
                 "day" if x["day"] else "second")
    if k == "comp":
        return dec(x, pick, asstr=asstr)
    raise KeyError(k)


def decoded(c, n, pick=0, asstr=False):
    vs = [dec_val(v, c["cls"], n, pick, asstr) for v in c["a"][n]]
    if (c["cls"], n) in LISTS:
        return vs
    return vs[0] if vs else None


def dec(c, pick=0, assign=(), asstr=False):
    """a real component with the given value; attributes named in `assign`
    are assigned, the others passed to the constructor"""
    cls = c["cls"]
    init()
    kw = {n: decoded(c, n, pick, asstr) for n in ATTRS[cls]}
    late = {n: kw.pop(n) for n in assign if n in kw and (cls, n) != ("custom", "action")}
    for n in ("uid", "dtstamp", "version", "prodid"):
        if n in kw and kw[n] is None:
            del kw[n]
    o = classes()[cls](**kw)
    for n, v in late.items():
        setattr(o, n, v)
    for x in c["x"]:
        o.extra.append(dec_item(x))
    return o


# ------------------------------------------------- reading text, independently

def split_outside(s, sep):
    out, cur, q = [], "", False
    for ch in s:
        if ch == '"':
            q = not q
        if ch == sep and not q:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def unparam(s):
    if len(s) >= 2 and s[0] == '"' and s[-1] == '"':
        s = s[1:-1]
    return re.sub(r"\^(.)", lambda m: {"n": "\n", "'": '"', "^": "^"}.get(m.group(1), m.group(0)), s)


def parse_line(s):
    q = False
    at = None
    for i, ch in enumerate(s):
        if ch == '"':
            q = not q
        elif ch == ":" and not q:
            at = i
            break
    if at is None:
        raise ValueError(f"no colon in {s!r}")
    head, value = s[:at], s[at + 1:]
    parts = split_outside(head, ";")
    ps = {}
    for p in parts[1:]:
        k, _, v = p.partition("=")
        ps[k] = [unparam(x) for x in split_outside(v, ",")]
    return parts[0], ps, value


def read_tree(text):
    """(items, VTIMEZONE ids) of a written text; VTIMEZONEs are left out"""
    lines = []
    for raw in (text[:-2] if text.endswith("\r\n") else text).split("\r\n"):
        if raw[:1] in (" ", "\t"):
            lines[-1] += raw[1:]
        else:
            lines.append(raw)
    stack, tzids = [("", [])], []
    for ln in lines:
        n, ps, v = parse_line(ln)
        if n == "BEGIN":
            stack.append((v, []))
        elif n == "END":
            name, its = stack.pop()
            if name != v:
                raise ValueError(f"{name} ended by {v}")
            if name == "VTIMEZONE" and len(stack) == 2 and stack[-1][0] == "VCALENDAR":
                tzids += [canonical(txt(i["v"])) for i in its if i["n"] == "TZID"]
                continue
            stack[-1][1].append({"t": "comp", "n": name, "items": its})
        else:
            stack[-1][1].append({"t": "line", "n": n, "ps": enc_params(ps), "v": cps(v)})
    if len(stack) != 1:
        raise ValueError("unclosed component")
    return stack[0][1], tzids


def esc_param(v):
    return v.replace("^", "^^").replace("\n", "^n").replace('"', "^'")


def write_tree(items, eol="\r\n"):
    """text of a tree, written independently of the code under test"""
    out = ""
    for i in items:
        if i["t"] == "comp":
            out += f"BEGIN:{i['n']}{eol}{write_tree(i['items'], eol)}END:{i['n']}{eol}"
        else:
            ps = "".join(";%s=%s" % (p["n"], ",".join(
                '"%s"' % esc_param(v) if re.search("[:;,]", v) or not v else esc_param(v)
                for v in p["vals"])) for p in i["ps"])
            out += f"{i['n']}{ps}:{txt(i['v'])}{eol}"
    return out


def offsets(c):
    """UTC offsets of all zoned times of a real component"""
    out = []

    def add(v):
        if isinstance(v, dtm.datetime) and v.tzinfo is not None:
            out.append(int(v.utcoffset().total_seconds()))

    def walk(c):
        cls = cls_of(c)
        for n in ATTRS[cls]:
            v = getattr(c, n)
            for x in v if isinstance(v, list) else [v]:
                if hasattr(x, "get_begin"):
                    add(x.get_begin())
                    if x.has_explicit_end():
                        add(x.get_effective_end())
                elif hasattr(x, "extra_params"):
                    walk(x)
                else:
                    add(x)
    walk(c)
    return out
