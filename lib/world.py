"""A set of real entries and spans, driven by recorded sessions (C04-C06)."""
import random

from checks import c01
from checks.c03 import LOCALS, set_span
from lib import core
from lib import entries as en


class World:
    def __init__(self, seed, dst, local, kinds, spread=3):
        from ics import Event, Timespan, Todo

        core.set_local_tz(LOCALS[local])
        self.cross = False
        self.rng = rng = random.Random(seed)
        self.local = local
        self.kinds = kinds
        if dst or local in en.DST:
            used = sorted({z for z in (dst, local) if z in en.DST})
            # half of the sessions lie around a change of the zone's offset
            self.cross = rng.random() < 0.5
            self.anchor = rng.choice(en.transition_days(used)[1:-1])
            if not self.cross:
                self.anchor += rng.choice([-9, 9])
            self.zones = ["", "", dst or "A", rng.choice(["A", "B", "UTC", "C"]),
                          local]
        else:
            self.anchor = rng.choice(c01.ANCHORS[:2] + [719163, 3651900, 693596])
            self.zones = rng.choice([["", "A"], ["A", "B", "UTC"], ["", "C", "D"],
                                     ["", "E", "F"], [""]])
        self.ents = [{"event": Event, "todo": Todo, "span": Timespan}[k]() for k in kinds]
        self.steps = []
        own = random.Random(repr(seed) + "attributes")
        for e in self.ents:
            if hasattr(e, "timespan"):
                decorate(e, own)

    def session(self):
        core.set_local_tz("UTC")
        return {"kinds": self.kinds, "local": self.local, "steps": self.steps}

    def rec(self, **k):
        self.steps.append(k)

    def dt(self):
        if self.cross:
            # never at a skipped or repeated time
            assert en.SCALE == 1
            return {"w": [self.anchor + self.rng.choice([-2, -1, 0, 1, 1, 2]),
                          self.rng.choice([21600, 21600, 43200, 64800, 0])],
                    "f": 0, "z": self.rng.choice(self.zones)}
        x = c01.rand_dt(self.rng, self.anchor, self.zones)
        if self.rng.random() < 0.6:
            x["w"][1] = self.rng.choice([0, 3600 * 6, 43200, 3600 * 18]) * en.SCALE
            if en.SCALE == 2 and self.rng.random() < 0.4:
                x["w"][1] = max(x["w"][1] + self.rng.choice([1, -1]), 0)
        return x

    def near(self, x):
        """an instant close to an end point of x, in some zone"""
        import datetime as dtm

        ts = getattr(x, "timespan", x)
        p = self.rng.choice([ts.get_begin(), ts.get_effective_end(), ts.get_effective_end()])
        if p is None:
            return self.dt()
        if self.rng.random() < 0.4:
            return en.enc_dt(p)[0]
        z = self.rng.choice(["UTC", "A", "B"])
        try:
            p = p.astimezone(en.ZONES[z]) + dtm.timedelta(
                seconds=self.rng.choice([0, 0, 1, -1, 1800, -1800, 3600, -3600]) / en.SCALE)
        except OverflowError:
            return self.dt()
        return en.enc_dt(p)[0]

    def rand_span(self, missing=0.1):
        rng = self.rng
        b = [] if rng.random() < missing else [self.dt()]
        e2, d = [], []
        if rng.random() < 0.5:
            e2 = [self.dt()]
            if b:
                e2[0]["w"][0] = b[0]["w"][0] + rng.choice([0, 1, 1, 2])
                if rng.random() < 0.6:
                    e2[0]["z"] = b[0]["z"]
        elif rng.random() < 0.7:
            d = [[rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 43200, 86399,
                                                        1800 if self.cross else 3600]) * en.SCALE]]
            if en.SCALE == 2 and rng.random() < 0.4:
                d[0][1] += 1
        return [b, e2, d]

    def edit(self, i, missing=0.1):
        """one random edit of entry i, recorded"""
        from ics import Timespan

        rng = self.rng
        kind = self.kinds[i]
        e = self.ents[i]
        if kind == "span":
            v = self.rand_span(missing)
            box = []
            ok, _ = en.call(lambda: box.append(
                Timespan(en.dec_dt(v[0]), en.dec_dt(v[1]), en.dec_td(v[2]))))
            if ok:
                self.ents[i] = box[0]
            self.rec(op="build", i=i + 1, v=v, ok=ok, obs=obs(self.ents[i]))
            return
        r = rng.random()
        if r < 0.55:
            v = self.rand_span(missing)
            ok, _ = en.call(set_span, e, kind, *v)
            self.rec(op="build", i=i + 1, v=v, ok=ok, obs=en.observe(e))
        elif r < 0.7:
            op, v = rng.choice([("allday", []), ("allday", []), ("unset", []),
                                ("convert", ["end"]), ("convert", ["duration"])])
            _, ok, o = c01.step(e, kind, op, v)
            self.rec(op=op, i=i + 1, v=v, ok=ok, obs=o)
        elif r < 0.85:
            op, v = rng.choice([("begin", [self.dt()]), ("end", [self.dt()])])
            _, ok, o = c01.step(e, kind, op, v)
            self.rec(op=op, i=i + 1, v=v, ok=ok, obs=o)
        else:
            t = rng.choice([None, "", "a", "b", "ab", "A", "\u00e9", "\ud83d\ude00".encode(
                "utf-16", "surrogatepass").decode("utf-16"), "\uffee", "aa"])
            e.summary = t
            self.rec(op="summary", i=i + 1, v=core.cps(t or ""))


def decorate(e, rng):
    """attributes that say nothing about when an entry happens"""
    import datetime as dtm

    words = ["", "0", "a", "b", "zz", "\U0001f600"]
    stamp = dtm.datetime(rng.choice([1970, 2020, 2021, 2999]), 1, 1, tzinfo=dtm.timezone.utc)
    for n, v in {"location": rng.choice(words), "description": rng.choice(words),
                 "uid": rng.choice(words[1:]) + str(rng.random()), "dtstamp": stamp, "created": stamp,
                 "last_modified": stamp, "classification": rng.choice(["PUBLIC", "PRIVATE"]),
                 "status": "CONFIRMED",
                 "categories": rng.sample(words, 2), "priority": rng.randrange(10),
                 "transparent": rng.random() < 0.5, "percent": rng.randrange(101)}.items():
        if rng.random() < 0.5 and n in type(e).__dict__ or hasattr(e, n) and rng.random() < 0.4:
            en.call(setattr, e, n, v)


def obs(x):
    if hasattr(x, "timespan"):
        return en.observe(x)
    try:
        return {"b": en.enc_dt(x.get_begin()), "e": en.enc_dt(x.get_effective_end()),
                "d": en.enc_td(x.get_effective_duration()), "day": x.is_all_day(),
                "rep": en.rep_of(x.get_end_representation())}
    except Exception as ex:
        return {"b": [], "e": [], "d": [], "day": False, "rep": f"?{type(ex).__name__}"}


def answer(fn, *a):
    """result of a predicate as the specification names it"""
    try:
        with core.limit(10):
            r = fn(*a)
    except core.Hang:
        return "hang"
    except ValueError:
        return "error"
    except Exception as e:
        return type(e).__name__
    return {True: "yes", False: "no"}[r] if isinstance(r, bool) else f"?{r!r}"


def build(s, zone=None):
    """the real span or entry for a span of the model"""
    from ics import Event, EventTimespan, Timespan, Todo, TodoTimespan

    k = s["k"]
    T = {"event": EventTimespan, "todo": TodoTimespan, "span": Timespan}[k]
    ts = T(en.dec_dt(s["b"]), en.dec_dt(s["e"]), en.dec_td(s["d"]),
           "day" if s["day"] else "second")
    if k == "span":
        return ts
    e = (Event if k == "event" else Todo)(timespan=ts)
    decorate(e, random.Random(repr(s)))
    return e


def pairs(ctx, kinds, zones, days, tods, local, invariants):
    """all pairs of spans of the model, with the model's answers"""
    return ctx.explore(
        "MC_Schedule", f"""Kinds = {kinds}
 Days = {days}
 TimesOfDay = {tods}
 ZoneIds = {zones}
 Durs <- MCDurs
 Local = "{local}"
 Zones <- MCZones""", invariants, header={"zones": en.header_zones()})
