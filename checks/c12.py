"""C12: temporal values as text."""
import datetime as dtm
import random
import re

from lib import core
from lib.core import cps, txt
from lib.texts import outcome

DAY0 = dtm.date(1, 1, 1).toordinal() - 1
TZNAMES = ["Europe/Berlin", "America/New_York"]
PLACE = {}


def converter(kind):
    from ics.valuetype import datetime as d

    return {"date": d.DateConverter, "datetime": d.DatetimeConverter, "time": d.TimeConverter,
            "duration": d.DurationConverter, "offset": d.UTCOffsetConverter,
            "period": d.PeriodConverter}[kind]


def zone(z, rng=None):
    import dateutil.tz
    import zoneinfo

    import ics
    from ics.timezone import Timezone

    if not PLACE:
        PLACE.update({n: Timezone.from_tzid(n) for n in TZNAMES})
        PLACE["utcs"] = [dateutil.tz.UTC, dtm.timezone.utc, zoneinfo.ZoneInfo("UTC"),
                         ics.timezone.UTC]
    t = txt(z)
    if t == "":
        return None
    if t == "UTC":
        return rng.choice(PLACE["utcs"]) if rng else PLACE["utcs"][0]
    return PLACE[t]


def enc_zone(tz):
    from ics.timezone import is_utc

    if tz is None:
        return []
    if is_utc(tz):
        return cps("UTC")
    return canonical(getattr(tz, "tzid", f"?{tz!r}"))


def canonical(tzid):
    """the ids of the built-in zones carry a prefix"""
    return cps(re.sub("^/ics.py/[^/]*/", "", tzid))


def secs(t):
    if t.microsecond:
        raise RuntimeError("microseconds")
    return t.hour * 3600 + t.minute * 60 + t.second


def enc_dt(v):
    assert isinstance(v, dtm.datetime)
    return {"w": [v.toordinal(), secs(v)], "z": enc_zone(v.tzinfo)}


def enc_dur(v):
    if v.microseconds:
        raise RuntimeError("microseconds")
    return [v.days, v.seconds]


def enc(kind, v):
    if kind == "date":
        assert type(v) is dtm.date, type(v)
        return v.toordinal()
    if kind == "datetime":
        return enc_dt(v)
    if kind == "time":
        assert isinstance(v, dtm.time)
        return {"s": secs(v), "z": enc_zone(v.tzinfo)}
    if kind == "duration":
        return enc_dur(v)
    if kind == "offset":
        if v.microseconds:
            raise RuntimeError("microseconds")
        return v.days * 86400 + v.seconds
    end = v.get_end_representation() == "end"
    return {"b": enc_dt(v.get_begin()), "e": [enc_dt(v.get_effective_end())] if end else [],
            "d": [] if end else [enc_dur(v.get_effective_duration())]}


def dec_dt(v, rng=None):
    d = dtm.datetime.fromordinal(v["w"][0]) + dtm.timedelta(seconds=v["w"][1])
    return d.replace(tzinfo=zone(v["z"], rng))


def dec(kind, v, rng=None):
    if kind == "date":
        return dtm.date.fromordinal(v)
    if kind == "datetime":
        return dec_dt(v, rng)
    if kind == "time":
        t = (dtm.datetime(1, 1, 1) + dtm.timedelta(seconds=v["s"])).time()
        return t.replace(tzinfo=zone(v["z"], rng))
    if kind == "duration":
        return dtm.timedelta(v[0], v[1])
    if kind == "offset":
        return dtm.timedelta(seconds=v)
    from ics.timespan import Timespan

    if v["e"]:
        b = dec_dt(v["b"], rng)
        return Timespan(b, dec_dt(v["e"][0]).replace(tzinfo=b.tzinfo))
    return Timespan(dec_dt(v["b"], rng), duration=dec("duration", v["d"][0]))


def read(kind, t, tz, extra=None):
    params = dict(extra or {})
    if tz:
        params["TZID"] = [txt(z) for z in tz]
    return outcome(lambda: enc(kind, converter(kind).parse(txt(t), params, {})))


def write(kind, v, rng=None):
    params = {"X-K": ["1", "2"]} if rng and rng.random() < 0.3 else {}
    was = {k: list(p) for k, p in params.items()}
    o = outcome(lambda: converter(kind).serialize(dec(kind, v, rng), params, {}))
    tz = params.pop("TZID", [])
    rec = {"ok": o["ok"], "exc": o["exc"], "t": cps(o["res"]) if o["ok"] else [],
           "tz": [canonical(str(z)) for z in tz], "kept": params == was,
           "back": {"ok": False, "res": [], "exc": ""}}
    if o["ok"]:
        rec["back"] = read(kind, rec["t"], [cps(str(z)) for z in tz])
    return rec


def replay(chunk):
    bad = []
    for r in chunk:
        x, w = r["x"], r["r"]
        if x["m"] == "text":
            o = read(x["k"], x["t"], x["z"])
            if o["ok"]:
                good = w["k"] == "free" or (w["k"] != "bad" and o["res"] == w["v"])
            else:
                good = w["k"] != "ok" and o["exc"] == "ValueError"
            if not good:
                bad.append({"what": "read a " + x["k"], "text": txt(x["t"]),
                            "tzids": [txt(z) for z in x["z"]], "expected": w, "got": o})
        else:
            o = write(x["k"], x["v"])
            if not (o["ok"] and o["t"] == w["t"] and o["tz"] == w["tz"] and
                    o["back"]["ok"] and o["back"]["res"] == x["v"]):
                bad.append({"what": "write a " + x["k"], "value": x["v"],
                            "expected": txt(w["t"]), "got": o})
    return bad[:20]


KINDS = ["date", "datetime", "time", "duration", "offset", "period"]


def rand_zone(rng):
    return cps(rng.choice(["", "", "UTC", "UTC"] + TZNAMES))


def rand_day(rng):
    return rng.choice([rng.randrange(1, 3652060), rng.randrange(693596, 748000),
                       rng.choice([1, 2, 59, 60, 365, 366, 36159, 36160, 364877, 364878,
                                   3652058, 3652059])])


def rand_clock(rng):
    return rng.choice([rng.randrange(86400), 0, 59, 60, 3599, 3600, 86399,
                       rng.randrange(24) * 3600, rng.randrange(1440) * 60])


def rand_dur(rng):
    d = rng.choice([0, 1, rng.randrange(20), rng.randrange(10000), rng.randrange(10 ** 9)])
    s = rng.choice([0, rand_clock(rng)])
    v = dtm.timedelta(d, s)
    if rng.random() < 0.4:
        v = -v
    return [v.days, v.seconds]


def rand_value(kind, rng):
    if kind == "date":
        return rand_day(rng)
    if kind == "datetime":
        z = rand_zone(rng)
        day = rand_day(rng)
        if txt(z) in TZNAMES and rng.random() < 0.95:    # others are slow to look up
            day = rng.randrange(719000, 738000)
        return {"w": [day, rand_clock(rng)], "z": z}
    if kind == "time":
        return {"s": rand_clock(rng), "z": rand_zone(rng)}
    if kind == "duration":
        return rand_dur(rng)
    if kind == "offset":
        return rng.choice([1, -1]) * rand_clock(rng)
    z = rand_zone(rng)
    b = {"w": [rand_day(rng), rand_clock(rng)], "z": z}
    if txt(z) in TZNAMES:       # stay away from the ends of time
        b["w"][0] = rng.randrange(719000, 738000)
    room = 3652059 - b["w"][0]
    if rng.random() < 0.5:
        d = rng.choice([0, 1, rng.randrange(40)])
        e = dtm.timedelta(*b["w"]) + dtm.timedelta(d, rand_clock(rng))
        e = [e.days, e.seconds] if e.days <= 3652059 else b["w"]
        return {"b": b, "e": [{"w": e, "z": z}], "d": []}
    d = [min(max(0, room - 1), rng.choice([0, 1, 30])), rand_clock(rng)]
    if room < 2:
        d = [0, 0]
    return {"b": b, "e": [], "d": [d]}


def rand_text(kind, rng):
    """texts around the grammar of a kind"""
    k = rng.random()
    if kind == "duration" and k < 0.5:
        units = [u for u in "WDHMS" if rng.random() < 0.5]
        if rng.random() < 0.2:
            rng.shuffle(units)
        if rng.random() < 0.1:
            units.append(rng.choice("WDHMS"))
        out, tt = "", False
        for u in units:
            if u in "HMS" and not tt:
                out, tt = out + "T", True
            out += str(rng.choice([0, 1, 7, 10, 59, 60, 61, 99, 1000, 99999, 999999999])) + u
        t = rng.choice(["", "", "+", "-"]) + "P" + out
    else:
        w = write(kind, rand_value(kind, rng), rng)
        t = txt(w["t"])
        if kind in ("date", "datetime") and rng.random() < 0.4:
            t = t[:rng.choice([4, 6, 8, 9, 11, 13, 15])]
        if rng.random() < 0.2 and kind in ("time", "datetime", "period"):
            t = t.replace("Z", "") if "Z" in t else t + "Z"
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        p = rng.randrange(len(t) + 1)
        t = t[:p] + rng.choice(list("0123456789") + list("TZPDWHMS+-/ ") +
                               ["", "", "\u0661", "\uff11", "\u00b2", "t", "z", "p", ".", ":", "\n",
                                "\t", "_"]) + t[p + rng.randrange(2):]
    return t


def session(args):
    seed, n = args
    rng = random.Random(seed)
    zone([])
    steps = []
    for _ in range(n):
        kind = rng.choice(KINDS)
        if rng.random() < 0.5:
            v = rand_value(kind, rng)
            steps.append({"op": "write", "kind": kind, "v": v, **write(kind, v, rng)})
        else:
            t = cps(rand_text(kind, rng))
            tz = []
            if kind in ("date", "datetime", "time", "period") and rng.random() < 0.35:
                tz = rng.choice([[cps(rng.choice(TZNAMES))], [cps("Mars/Phobos")],
                                 [cps(TZNAMES[0]), cps(TZNAMES[1])], [cps(TZNAMES[0])] * 2])
            steps.append({"op": "read", "kind": kind, "t": t, "tz": tz, **read(kind, t, tz)})
    return {"steps": steps}


def sessions(chunk):
    return [session(a) for a in chunk]


def run(ctx):
    zone([])

    rs = ctx.explore("MC_Temporal", f"Deep = {'TRUE' if ctx.thorough else 'FALSE'}\n"
                     " Known <- KnownZones",
                     ["Report", "RoundTrip", "FixedWidth", "WriteOfRead"])
    for b in core.parallel(replay, core.split(rs)):
        ctx.mismatch(f"the code does not {b['what']} as the model does", **b)
    ctx.cov["replayed_model_behaviours"] += len(rs)
    jobs = [(ctx.rng.random(), 40) for _ in range(ctx.pick(600, 12000))]
    logs = core.parallel(sessions, core.split(jobs))
    ctx.validate("TemporalTrace", logs, header={"known": [cps(z) for z in TZNAMES]})
    ctx.assumptions += ["offsets with hours above 23 or minutes or seconds above 59, signed "
                        "durations in periods and periods ending after 9999 are unspecified"]
