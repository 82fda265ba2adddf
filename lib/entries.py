"""Encoding of times, spans and entries shared by the temporal checks."""
import contextlib
import datetime as dtm

from lib import core

# zone id -> tzinfo singleton
FIXED = {"UTC": 0, "A": 3600, "B": -18000, "C": 49500, "D": -34200,
         "E": 50400, "F": -43200}
# id -> (tz database name, kind of tzinfo object)
DST = {"Berlin": ("Europe/Berlin", "zoneinfo"),
       "NewYork": ("America/New_York", "dateutil"),
       "Sydney": ("Australia/Sydney", "ics"),
       "Paris": ("Europe/Paris", "ics")}
Y0, Y1 = 2016, 2024
ZONES = {}
BY_ID = {}
# units of the model's clock per second: with 2, and HalfDay in Time.tla, half seconds
SCALE = 1
HALF = " Zones <- HdrZones\n DAY <- HalfDay"


@contextlib.contextmanager
def scaled(n):
    global SCALE
    SCALE = n
    try:
        yield
    finally:
        SCALE = 1


def init_zones():
    import dateutil.tz
    import zoneinfo

    from ics.timezone import Timezone

    if ZONES:
        return
    for k, off in FIXED.items():
        ZONES[k] = (dateutil.tz.UTC if k == "UTC" else
                    dtm.timezone(dtm.timedelta(seconds=off)))
    for k, (name, kind) in DST.items():
        ZONES[k] = {"zoneinfo": zoneinfo.ZoneInfo, "dateutil": dateutil.tz.gettz,
                    "ics": Timezone.from_tzid}[kind](name)
    for k, z in ZONES.items():
        BY_ID[id(z)] = k


def enc_naive(v):
    return [v.toordinal(), (v.hour * 3600 + v.minute * 60 + v.second) * SCALE
            + v.microsecond * SCALE // 1000000]


def zone_table(name, y0=Y0, y1=Y1):
    """segments of constant offset, from the system's tz database"""
    import zoneinfo

    z = zoneinfo.ZoneInfo(name)
    utc = dtm.timezone.utc

    def off(t):
        return int(t.astimezone(z).utcoffset().total_seconds())

    t = dtm.datetime(y0, 1, 1, tzinfo=utc)
    res = [off(t)]
    day = dtm.timedelta(days=1)
    while t.year < y1:
        n = t + day
        if off(n) != res[-1] if len(res) == 1 else off(n) != res[-1][1]:
            lo, hi = t, n
            while hi - lo > dtm.timedelta(seconds=1):
                mid = lo + (hi - lo) // 2
                mid = mid.replace(microsecond=0)
                if off(mid) == off(lo):
                    lo = mid
                else:
                    hi = mid
            res.append([enc_naive(hi.replace(tzinfo=None)), off(hi)])
        t = n
    return res


_TABLES = {}


def dst_table(k):
    if k not in _TABLES:
        _TABLES[k] = zone_table(DST[k][0])
    return _TABLES[k]


def transition_days(keys):
    return sorted(seg[0][0] for k in keys for seg in dst_table(k)[1:])


def repeated_hours(k):
    """day, first and past-the-end second of the wall times that happen twice"""
    t, res = dst_table(k), []
    for i in range(1, len(t)):
        old, ((day, sec), new) = t[0] if i == 1 else t[i - 1][1], t[i]
        if new < old:
            n = (sec + new) // 86400
            res.append((day + n, sec + new - n * 86400, sec + old - n * 86400))
    return res


def header_zones(dst=(), short=False):
    res = {k: [v * SCALE] for k, v in FIXED.items()}
    for k in dst:
        res[k] = zone_table(DST[k][0], 2020, 2021) if short else dst_table(k)
    return res


def zone_id(tz):
    if tz is None:
        return ""
    return BY_ID.get(id(tz)) or f"?{tz!r}"


def enc_dt(v):
    if v is None:
        return []
    if not isinstance(v, dtm.datetime):
        return [{"w": [0, 0], "f": 0, "z": f"?{type(v).__name__}"}]
    z = zone_id(v.tzinfo)
    if v.microsecond * SCALE % 1000000:
        z = f"?us{v.microsecond}"
    fold = 0
    if v.fold and v.tzinfo is not None and \
            v.utcoffset() != v.replace(fold=0).utcoffset():
        fold = 1
    return [{"w": enc_naive(v), "f": fold, "z": z}]


def dec_dt(x):
    """encoded option -> datetime or None"""
    if not x:
        return None
    t = x[0]
    d = dtm.datetime.fromordinal(t["w"][0]) + dtm.timedelta(seconds=t["w"][1] / SCALE)
    return d.replace(tzinfo=ZONES[t["z"]] if t["z"] else None, fold=t["f"])


def enc_td(v):
    if v is None:
        return []
    if not isinstance(v, dtm.timedelta) or v.microseconds * SCALE % 1000000:
        return [[0, -1]]
    return [[v.days, v.seconds * SCALE + v.microseconds * SCALE // 1000000]]


def dec_td(x):
    if not x:
        return None
    return dtm.timedelta(days=x[0][0], seconds=x[0][1] / SCALE)


def rep_of(r):
    return {None: "none", "end": "end", "due": "end",
            "duration": "duration"}.get(r, f"?{r!r}")


def observe(e):
    """the projection Obs of Timespan.tla, through the public API"""
    try:
        return {"b": enc_dt(e.begin), "e": enc_dt(e.end), "d": enc_td(e.duration),
                "day": bool(e.all_day), "rep": rep_of(e.end_representation)}
    except Exception as ex:
        return {"b": [], "e": [], "d": [], "day": False,
                "rep": f"?{type(ex).__name__}: {ex}"}


def call(fn, *a, **k):
    """(ok, exception name) of one call into the code under test"""
    try:
        with core.limit(10):
            fn(*a, **k)
        return True, ""
    except core.Hang:
        return False, "Hang"
    except Exception as ex:
        return False, type(ex).__name__
